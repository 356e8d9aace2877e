use crate::engine::Plan;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c26;
mod c27;
mod c28;
mod ops;

pub fn plan(id: &str, p: &mut Plan) -> bool {
    match id {
        "C01" => c01::plan(p),
        "C02" => c02::plan(p),
        "C03" => c03::plan(p),
        "C04" => c04::plan(p),
        "C05" => c05::plan(p),
        "C06" => c06::plan(p),
        "C07" => c07::plan(p),
        "C08" => c08::plan(p),
        "C09" => c09::plan(p),
        "C10" => c10::plan(p),
        "C11" => c11::plan(p),
        "C12" => c12::plan(p),
        "C13" => c13::plan(p),
        "C14" => c14::plan(p),
        "C15" => c15::plan(p),
        "C16" => c16::plan(p),
        "C17" => c17::plan(p),
        "C18" => c18::plan(p),
        "C19" => c19::plan(p),
        "C20" => c20::plan(p),
        "C22" => c22::plan(p),
        "C23" => c23::plan(p),
        "C26" => c26::plan(p),
        "C27" => c27::plan(p),
        "C28" => c28::plan(p),
        _ => return false,
    }
    true
}

pub fn plan_sched(id: &str, p: &mut crate::sched::SPlan) -> bool {
    match id {
        "C07" => c07::plan_sched(p),
        "C21" => c21::plan(p),
        "C24" => c24::plan(p),
        _ => return false,
    }
    true
}
