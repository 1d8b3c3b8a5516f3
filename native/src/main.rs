//! replay <harness> <hexbytes>        run one harness on the given input bytes
//! replay --search <harness> <seed> <seconds>   look for a failing input
use std::panic;
use std::time::{Duration, Instant};

fn run(f: fn(), bytes: Vec<u8>) -> Result<bool, String> {
  let r = panic::catch_unwind(|| {
    dngv::sym::load(bytes);
    f();
  });
  match r {
    Ok(()) => Ok(true),
    Err(p) => {
      if p.is::<dngv::sym::Infeasible>() {
        return Ok(false);
      }
      Err(if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() })
    }
  }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  panic::set_hook(Box::new(|i| {
    if !i.payload().is::<dngv::sym::Infeasible>() {
      if let Some(l) = i.location() {
        LOC.with(|c| *c.borrow_mut() = format!("{}:{}", l.file(), l.line()));
      }
    }
  }));
  thread_local! { static LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
  let search = args[1] == "--search";
  let name = &args[if search { 2 } else { 1 }];
  let Some((_, f)) = dngv::all().into_iter().find(|(n, _)| n == name) else {
    println!("UNKNOWN harness {name}");
    std::process::exit(3);
  };
  if !search {
    let hex = args.get(2).cloned().unwrap_or_default();
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    match run(f, bytes) {
      Ok(true) => println!("PASS"),
      Ok(false) => { println!("INFEASIBLE"); std::process::exit(2) }
      Err(m) => { println!("FAIL {} at {}", m, LOC.with(|c| c.borrow().clone())); std::process::exit(1) }
    }
    return;
  }
  let mut s: u64 = args[3].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1;
  let end = Instant::now() + Duration::from_secs(args[4].parse().unwrap());
  let mut next = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
  let (mut n, mut feasible) = (0u64, 0u64);
  while Instant::now() < end {
    let style = next() % 4;
    let bytes: Vec<u8> = (0..1024).map(|_| { let v = next(); match style { 0 => (v >> 8) as u8, 1 => (v >> 8) as u8 & 7, 2 => [0u8, 1, 255, 2, 128, 127, 4, 16][(v >> 8) as usize % 8], _ => if v & 1 == 0 { 0 } else { (v >> 8) as u8 } } }).collect();
    n += 1;
    match run(f, bytes.clone()) {
      Ok(true) => feasible += 1,
      Ok(false) => {}
      Err(m) => {
        let h: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
        println!("FAIL {} at {}\nINPUT {}", m, LOC.with(|c| c.borrow().clone()), h);
        std::process::exit(1)
      }
    }
  }
  println!("SEARCHED {n} feasible {feasible}");
}
