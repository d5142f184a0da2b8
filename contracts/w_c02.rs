//@define C02
//@include w.rs
