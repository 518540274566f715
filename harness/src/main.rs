#![allow(clippy::all, dead_code, deprecated)]
#[macro_use]
mod reg;
mod sym;
mod wire;
mod model;
mod p_prim;
mod p_read;
mod p_write;
mod net;
mod p_net;
mod p_fault;
mod p_pool;
mod p_hostile;
mod p_get;
mod p_city;
mod p_proto;
mod p_frame;
mod p_opts;
mod p_time;
mod p_value;

harnesses! {
    p_prim: c01_uvarint_rt, c01_uvarint_any, c01_string_rt, c01_string_any, c01_string_pool;
    p_read: c03_scalars, c03_params, c03_aliases, c03_nested, c03_deep, c03_lowcard, c03_info;
    p_write: c02_scalars, c02_opts, c02_vecs, c02_maps, c02_casts, c02_lowcard, c02_lowcard_many, c04_scalars, c04_opts, c04_vecs, c04_maps, c04_casts, c04_lowcard;
    p_net: c09_read_cuts, c09_read_bytes, c09_write_cuts;
    p_fault: c13_exception, c13_hello, c13_eof, c13_eof_check, c15_dirty, c22_timeouts, c22_retries, c22_flapping, c22_stale, c22_hosts;
    p_hostile: c08_flat, c08_strings, c08_offsets, c08_offsets2, c08_lowcard, c08_columns, c08_header, c08_typename, c08_typename_any, c08_packet, c08_packet_len, c08_session;
    p_get: c05_concat, c05_result, c05_odd, c06_types, c06_index, c07_simple, c07_complex, c07_empty;
    p_frame: c10_write, c10_write_lz4, c10_read, c10_read_lz4, c10_corrupt, c10_fields, c10_payload, c10_session, c10_session_corrupt;
    p_proto: c11_requests, c11_settings, c11_negative, c12_progress, c12_profile, c12_hello, c12_exception, c12_others, c12_unknown;
    p_city: c24_short, c24_mid, c24_long, c24_known;
    p_opts: c16_params, c16_userinfo, c16_settings, c16_many, c16_invalid, c16_any, c16_builder, c16_pool, c16_hosts;
    p_time: c17_read, c17_far, c17_any, c17_datetime, c17_date, c17_write;
    p_value: c18_eq, c18_print, c18_of, c18_float, c18_insert, c18_push, c19_values, c19_maps, c19_convert, c19_print, c20_rows, c20_macro, c20_types, c20_new;
    p_pool: c14_tasks, c14_history;
}

extern "C" { fn rt_load(p: *const u8); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { for (n, _) in TABLE { println!("{}", n); } return; }
    let p = std::ffi::CString::new(a[2].clone()).unwrap();
    unsafe { rt_load(p.as_ptr() as *const u8) };
    let f = TABLE.iter().find(|(n, _)| *n == a[1]).expect("harness").1;
    f();
    println!("DONE");
}
