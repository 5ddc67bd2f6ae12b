// run [opt=val..] FILE: evaluate binding `main` of a eucalypt file and print it as json, or ERROR <variant>.
use eucalypt::driver::eval::Executor;
use eucalypt::driver::options::EucalyptOptions;
use eucalypt::driver::prepare;
use eucalypt::driver::source::SourceLoader;
use eucalypt::driver::statistics::{Statistics, Timings};
use eucalypt::syntax::input::{Input, Locator};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

// sink=LIMIT:CHUNK:KIND, a sink that takes LIMIT bytes, CHUNK at a time, then fails
thread_local!(static SINK: RefCell<Option<(usize, usize, String)>> = const { RefCell::new(None) });

#[derive(Clone, Default)]
struct Buf(Rc<RefCell<Vec<u8>>>, bool);
impl Write for Buf {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut n = b.len();
        if let (true, Some((limit, chunk, kind))) = (self.1, SINK.with(|s| s.borrow().clone())) {
            n = n.min(chunk).min(limit - self.0.borrow().len());
            if n == 0 && !b.is_empty() {
                return Err(match kind.as_str() {
                    "pipe" => std::io::ErrorKind::BrokenPipe,
                    "reset" => std::io::ErrorKind::ConnectionReset,
                    _ => std::io::ErrorKind::StorageFull,
                }
                .into());
            }
        }
        self.0.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn go() {
    let mut o = EucalyptOptions { export_type: Some("json".into()), ..Default::default() };
    let mut prelude = false;
    let mut file = String::new();
    let mut eval = Some("main".to_string());
    for a in std::env::args().skip(1) {
        match a.split_once('=') {
            Some(("prelude", v)) => prelude = v == "1",
            Some(("format", v)) => o.export_type = Some(v.into()),
            Some(("target", v)) => o.target = Some(v.into()),
            Some(("seed", v)) => o.seed = v.parse().ok(),
            Some(("heap", v)) => o.stg_settings.heap_limit_mib = v.parse().ok(),
            Some(("sink", v)) => {
                let p: Vec<&str> = v.split(':').collect();
                let t = (p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].to_string());
                SINK.with(|s| *s.borrow_mut() = Some(t));
            }
            Some(("io", v)) => o.allow_io = v == "1",
            Some(("lib", v)) => o.lib_path.push(v.into()),
            Some(("eval", v)) => eval = if v.is_empty() { None } else { Some(v.into()) },
            _ => file = a,
        }
    }
    o.stg_settings.generate_annotations = true;
    let mut pro = vec![
        Input::new(Locator::Pseudo("args".into()), Some("__args".into()), "core"),
        Input::new(Locator::Pseudo("io".into()), Some("__io".into()), "core"),
        Input::new(Locator::Literal("[none]\n".into()), Some("__build".into()), "toml"),
    ];
    if prelude {
        pro.push(Input::new(Locator::Resource("prelude".into()), None, "eu"));
    }
    o.prologue_inputs = pro;
    o.explicit_inputs.push(Input::new(Locator::Literal(std::fs::read_to_string(&file).unwrap()), None, "eu"));
    if let Some(e) = eval {
        o.evaluate = Some(e.clone());
        o.epilogue_inputs.push(Input::from(Locator::Cli(e)));
    }
    let mut loader = SourceLoader::new(o.lib_path.clone()).with_args(vec![]).with_seed(o.seed);
    if let Err(e) = prepare::prepare(&o, &mut loader, &mut Timings::default()) {
        println!("PREPARE ERROR {e:?}");
        return;
    }
    let fmt = o.export_type.clone().unwrap();
    let (out, err) = (Buf(Default::default(), true), Buf::default());
    let mut ex = Executor::from(loader);
    ex.capture_output(Box::new(out.clone()), Box::new(err.clone()));
    let r = ex.execute(&o, &mut Statistics::default(), fmt);
    print!("{}", String::from_utf8_lossy(&out.0.borrow()));
    if let Err(e) = r {
        println!("ERROR {e:?}");
    } else if SINK.with(|s| s.borrow().is_some()) {
        println!("OK");
    }
}

fn main() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(go).unwrap().join().unwrap();
}
