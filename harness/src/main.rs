mod adv;
mod camp_admin;
mod camp_bind;
mod camp_busy;
mod camp_cli;
mod camp_hist;
mod camp_idl;
mod camp_js;
mod camp_meta;
mod camp_misc;
mod camp_nat;
mod camp_token;
mod camp_variant;
mod meta;
mod case;
mod ids;
mod ix;
mod js;
mod mon;
mod nat;
mod rt;
mod scene;
mod tok;
mod props;
mod rpc;
mod run;
fn main() {
    run::main()
}

pub fn extra_main(_pos: &[String], _o: &std::collections::BTreeMap<String, String>) {
    run::die("usage: wrapmon run <property> | replay <file> | list")
}
