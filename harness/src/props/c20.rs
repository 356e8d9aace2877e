//! C20: run parameters are read exactly as given.
//!
//! The configuration readers run in a program of their own (cliprobe), as
//! they read the process's arguments and environment and stop the process.
use crate::engine::*;
use std::process::{Command, Stdio};

/// What the program printed, if it went through; Err if it was stopped.
fn probe(mode: &str, args: &[String], vars: &[(&str, String)]) -> Result<Result<String, ()>, String> {
    let exe = std::env::var("MC_CLIPROBE").map_err(|_| "HARNESS: no probe program".to_string())?;
    let out = Command::new(exe)
        .args(args)
        .env_clear()
        .env("MC_PROBE", mode)
        .env("RUST_BACKTRACE", "0")
        .envs(vars.iter().map(|(k, v)| (*k, v.as_str())))
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("HARNESS: the probe does not start: {}", e))?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let line = text.lines().find(|l| l.starts_with("CONFIG ")).map(|l| l[7..].to_string());
    Ok(match line {
        Some(l) if out.status.success() => Ok(l),
        _ => Err(()),
    })
}
fn pow2(x: u32) -> String {
    (1u128 << x).to_string()
}

const FLAGS: [(&str, &str); 4] = [("-m", "--matrix_height"), ("-e", "--ele_size"), ("-p", "--plaintext_bits"), ("-d", "--dim")];
/// value number i of flag f and what it stands for
fn flag_value(f: usize, i: usize) -> (String, String) {
    let exps = [0u32, 1, 10, 31, 32, 63, 16, 13];
    let plain = ["1", "10", "31", "0", "2048", "1774", "4294967296", "18446744073709551615"];
    if f < 2 {
        (exps[i].to_string(), pow2(exps[i]))
    } else {
        (plain[i].to_string(), plain[i].to_string())
    }
}
const DEFAULTS: [&str; 4] = ["65536", "8192", "10", "2048"];
fn config(v: &[String; 4], offline: bool, keyword: bool) -> String {
    format!("m={} dim={} p={} e={} offline={} keyword={}", v[0], v[3], v[2], v[1], offline, keyword)
}
fn spelled(f: usize, form: usize, v: &str) -> Vec<String> {
    match form {
        0 => vec![FLAGS[f].0.to_string(), v.to_string()],
        1 => vec![FLAGS[f].1.to_string(), v.to_string()],
        2 => vec![format!("{}={}", FLAGS[f].1, v)],
        _ => vec![format!("{}{}", FLAGS[f].0, v)],
    }
}
/// Every combination of given and absent flags, values, spellings, orders.
fn flags(c: &mut Case) -> R {
    let nv = if c.thorough() { 4 } else { 2 };
    let forms = if c.thorough() { 4 } else { 2 };
    c.explore(|c, ch| {
        let mut want: [String; 4] = [DEFAULTS[0].into(), DEFAULTS[1].into(), DEFAULTS[2].into(), DEFAULTS[3].into()];
        let form = ch.choose(forms);
        let mut parts = vec![];
        for f in 0..4 {
            let i = ch.choose(nv + 1);
            if i < nv {
                let (v, w) = flag_value(f, i * 2 + 1);
                parts.push(spelled(f, if forms == 2 { form + f % 2 * 2 } else { form }, &v));
                want[f] = w;
            }
        }
        // first as listed, then reversed
        if ch.choose(2) == 1 {
            if parts.len() < 2 {
                return Ok(());
            }
            parts.reverse();
        }
        let args: Vec<String> = parts.concat();
        let got = probe("cli", &args, &[])?;
        c.steps(1);
        c.state(&args);
        c.trace();
        c.outcome(&want);
        let want = config(&want, true, true);
        if got.as_deref() != Ok(want.as_str()) {
            return Err(format!("flags {:?}: configuration {:?} instead of {}", args, got, want));
        }
        c.sample(format!("{:?} -> {}", args, want));
        Ok(())
    })
}
/// Every flag alone with each of its values; environment must not matter.
fn each_flag(c: &mut Case) -> R {
    for f in 0..4 {
        let mut vals: Vec<(String, String)> = (0..8).map(|i| flag_value(f, i)).collect();
        if f < 2 {
            vals.extend((0..64).map(|x| (x.to_string(), pow2(x))));
        } else {
            vals.extend((0..70).chain([255, 256, 1023, 1024, 65535, 65536]).map(|x: u32| (x.to_string(), x.to_string())));
            for b in 0..64 {
                let t = (1u128 << b).to_string();
                vals.push((t.clone(), t));
            }
        }
        for (v, w) in vals {
            for form in 0..4 {
                let mut want: [String; 4] = [DEFAULTS[0].into(), DEFAULTS[1].into(), DEFAULTS[2].into(), DEFAULTS[3].into()];
                want[f] = w.clone();
                let args = spelled(f, form, &v);
                let got = probe("cli", &args, &[("PIR_LWE_DIM", "77".into()), ("BENCH_KV", "false".into())])?;
                let want = config(&want, true, true);
                c.steps(1);
                c.state(&args);
                c.trace();
                if got.as_deref() != Ok(want.as_str()) {
                    return Err(format!("flags {:?}: configuration {:?} instead of {}", args, got, want));
                }
            }
        }
    }
    Ok(())
}
fn bad_numbers() -> Vec<String> {
    let mut v: Vec<String> = ["", "abc", "1.5", "-1", "-0x1", "0x10", "1e3", "1_000", "10,", "10b", "NaN", "inf", "ten", "1-1", "2^4"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    v.push((1u128 << 64).to_string());
    v.push(((1u128 << 64) + 10).to_string());
    v.push(u128::MAX.to_string());
    v.push("9".repeat(60));
    v
}
fn bad_exponents() -> Vec<String> {
    let mut v = bad_numbers();
    v.extend((64..=300u64).map(|x| x.to_string()));
    for b in 9..64 {
        v.push((1u64 << b).to_string());
        v.push(((1u64 << b) + 3).to_string());
        v.push(((1u64 << b) + 10).to_string());
        v.push(((1u64 << b) - 1).to_string());
    }
    v
}
/// A value that cannot be parsed or represented ends the program.
fn bad_flags(c: &mut Case) -> R {
    for f in 0..4 {
        for v in if f < 2 { bad_exponents() } else { bad_numbers() } {
            for form in [1, 2] {
                let args = spelled(f, form, &v);
                let got = probe("cli", &args, &[])?;
                c.steps(1);
                c.state(&args);
                c.trace();
                c.outcome(&got.is_ok());
                if let Ok(got) = got {
                    return Err(format!("flags {:?}: read as configuration {}", args, got));
                }
            }
        }
    }
    Ok(())
}

const VARS: [&str; 6] = [
    "PIR_NUMBER_OF_ELEMENTS_EXP",
    "PIR_ELEM_SIZE_BITS",
    "PIR_PLAINTEXT_BITS",
    "PIR_LWE_DIM",
    "BENCH_DB_GEN",
    "BENCH_KV",
];
fn env_values(v: &[String; 4], offline: bool, keyword: bool) -> Vec<(&'static str, String)> {
    let mut out: Vec<(&'static str, String)> = (0..4).map(|i| (VARS[i], v[i].clone())).collect();
    out.push((VARS[4], offline.to_string()));
    out.push((VARS[5], keyword.to_string()));
    out
}
/// Every combination of values of the six variables.
fn environment(c: &mut Case) -> R {
    let ex = [0u32, 16, 63, 20];
    let pl = [["8192", "1", "65537", "18446744073709551615"], ["10", "9", "31", "4294967296"], ["1774", "2048", "1", "0"]];
    let n = if c.thorough() { 4 } else { 3 };
    c.explore(|c, ch| {
        let x = ex[ch.choose(n)];
        let mut v: [String; 4] = Default::default();
        v[0] = x.to_string();
        for i in 0..3 {
            v[i + 1] = pl[i][ch.choose(n)].to_string();
        }
        let offline = ch.choose(2) == 0;
        let keyword = ch.choose(2) == 0;
        let vars = env_values(&v, offline, keyword);
        v[0] = pow2(x);
        let want = config(&v, offline, keyword);
        let got = probe("env", &[], &vars)?;
        c.steps(1);
        c.state(&want);
        c.outcome(&want);
        c.trace();
        if got.as_deref() != Ok(want.as_str()) {
            return Err(format!("environment {:?}: configuration {:?} instead of {}", vars, got, want));
        }
        Ok(())
    })
}
/// One variable missing, or unreadable, or another value of it.
fn bad_environment(c: &mut Case) -> R {
    let base: [String; 4] = ["16".into(), "8192".into(), "10".into(), "1774".into()];
    for i in 0..6 {
        let good = env_values(&base, true, false);
        let mut bad: Vec<Option<String>> = vec![None];
        match i {
            0 => bad.extend(bad_exponents().into_iter().map(Some)),
            1..=3 => bad.extend(bad_numbers().into_iter().map(Some)),
            _ => bad.extend(["", "maybe", "tru", "falsey", "2", "-1", "null"].iter().map(|s| Some(s.to_string()))),
        }
        for b in bad {
            let mut vars = good.clone();
            match &b {
                None => {
                    vars.remove(i);
                }
                Some(b) => vars[i].1 = b.clone(),
            }
            let got = probe("env", &[], &vars)?;
            c.steps(1);
            c.state(&vars);
            c.trace();
            if let Ok(got) = got {
                return Err(format!("{} {:?}: read as configuration {}", VARS[i], b, got));
            }
        }
        if i < 4 {
            for x in 0..64u32 {
                let mut v = base.clone();
                v[i] = if i == 0 { x.to_string() } else { (1u64 << x).to_string() };
                let vars = env_values(&v, false, true);
                v[0] = if i == 0 { pow2(x) } else { pow2(16) };
                let want = config(&v, false, true);
                let got = probe("env", &[], &vars)?;
                c.steps(1);
                c.state(&vars);
                c.trace();
                if got.as_deref() != Ok(want.as_str()) {
                    return Err(format!("environment {:?}: configuration {:?} instead of {}", vars, got, want));
                }
            }
        }
    }
    Ok(())
}
/// The two value readers on their own.
fn readers(c: &mut Case) -> R {
    for x in 0..64u32 {
        let got = probe("exp", &[], &[("MC_VALUE", x.to_string())])?;
        c.steps(1);
        c.state(&x);
        c.trace();
        if got.as_deref() != Ok(pow2(x).as_str()) {
            return Err(format!("exponent {}: {:?}", x, got));
        }
    }
    for b in bad_exponents() {
        let got = probe("exp", &[], &[("MC_VALUE", b.clone())])?;
        c.steps(1);
        c.state(&b);
        c.trace();
        if let Ok(got) = got {
            return Err(format!("exponent {:?} is read as {}", b, got));
        }
    }
    for (t, w) in [("true", Some(true)), ("false", Some(false)), ("", None), ("maybe", None), ("truefalse", None), ("2", None)] {
        let got = probe("bool", &[], &[("MC_VALUE", t.into())])?;
        c.steps(1);
        c.state(&t);
        c.trace();
        if got.as_deref().ok() != w.map(|w| w.to_string()).as_deref() {
            return Err(format!("switch {:?} is read as {:?}", t, got));
        }
    }
    Ok(())
}

pub fn plan(p: &mut Plan) {
    p.bound(format!(
        "flags: every subset of the four, {} values each, spellings and both orders; each flag alone with 72 to 140 values in 4 spellings; \
         environment: {}^4 * 4 combinations, each variable absent, unreadable and with every power of two; every exponent 0..300 and around every power of two up to 2^64",
        if p.thorough() { 4 } else { 2 },
        if p.thorough() { 4 } else { 3 }
    ));
    p.assume("a program is stopped if it ends with a failure status without having produced its configuration");
    p.case("flags together", flags);
    p.case("each flag", each_flag);
    p.case("bad flags", bad_flags);
    p.case("environment together", environment);
    p.case("bad environment", bad_environment);
    p.case("value readers", readers);
}
