// ---- configurations without any option
pub open spec fn cnone(c: Config) -> bool { fnone(c.fmt) }
pub open spec fn fnone(f: FormatOpts) -> bool {
    //@fields src/config.rs FormatOpts | &&& f.$F is None
}
