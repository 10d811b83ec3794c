use ipmb::*;
use std::time::Duration;
fn main() {
    let id = format!("ipmb.rec.{}", std::process::id());
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 {
        let mut o = Options::new(a[1].as_str(), label!("ctl"), "");
        o.controller_affinity = true;
        let (_s, mut r) = join::<BytesMessage, BytesMessage>(o, None).unwrap();
        println!("up");
        let _ = r.recv(None);
        return;
    }
    use std::io::BufRead;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap()).arg(&id).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut line = String::new();
    std::io::BufReader::new(c.stdout.as_mut().unwrap()).read_line(&mut line).unwrap();
    std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let (s, _r) = join::<BytesMessage, BytesMessage>(Options::new(id.as_str(), label!("a"), ""), None).unwrap();
        let mut op = LabelOp::from("x");
        for _ in 0..100_000 { op = !op; }
        let r = s.send(Message::new(Selector::unicast(op), BytesMessage { format: 1, data: vec![] }));
        println!("sent {:?}", r.is_ok());
        std::thread::sleep(Duration::from_secs(1));
        std::process::exit(match c.try_wait().unwrap() { Some(s) => { println!("controller: {s}"); 1 } None => { c.kill().unwrap(); println!("controller lives"); 0 } });
    }).unwrap().join().unwrap();
}
