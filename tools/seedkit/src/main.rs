mod server;
fn main(){}
