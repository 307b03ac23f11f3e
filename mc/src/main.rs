mod analyzer;
mod dict;
mod dictkit;
mod rich;
mod filters;
mod faults;
mod fw;
mod routes;
mod settings;
mod tfilters;
mod tok;
mod worlds;
use fw::Run;

fn dispatch(run: &mut Run) -> bool {
    match run.prop.as_str() {
        "C01" => tok::c01(run),
        "C02" => tok::c02(run),
        "C03" => tok::c03(run),
        "C04" => tok::c04(run),
        "C09" => tok::c09(run),
        "C05" => dict::c05(run),
        "C06" => dict::c06(run),
        "C07" => dict::c07(run),
        "C10" => dict::c10(run),
        "C11" => dict::c11(run),
        "C12" => filters::c12(run),
        "C13" => filters::c13(run),
        "C14" => filters::c14(run),
        "C15" => filters::c15(run),
        "C16" => filters::c16(run),
        "C17" => tfilters::c17(run),
        "C18" => tfilters::c18(run),
        "C19" => tfilters::c19(run),
        "C20" => tfilters::c20(run),
        "C22" => faults::c22(run),
        "C21" => analyzer::c21(run),
        _ => return false,
    }
    true
}

fn main() {
    fw::main_with(dispatch);
}
