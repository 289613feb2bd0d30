//! replay ENTRY HEX: runs one harness entry natively on the given input bytes
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a[2].as_bytes();
    let v: Vec<u8> = hex.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    for (n, f) in harness::table() {
        if n == a[1] {
            sxrt::set_input(v);
            f();
            println!("DONE");
            return;
        }
    }
    eprintln!("no entry {}", a[1]);
    std::process::exit(3);
}
