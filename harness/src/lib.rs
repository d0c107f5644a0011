pub mod api;
pub mod gen;
pub mod obs;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod size;
pub mod late;
pub mod make;
pub mod twice;
pub mod grammar;
use api::*;
use poreader::PoParser;

/// A parser whose regular expressions have already seen every kind of line, so that their lazily
/// built automata are complete before symbolic bytes arrive (what they answer does not depend on it).
pub fn warm() -> &'static PoParser {
    let p = PoParser::new();
    let mut kinds: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    for c in [
        '\u{80}', '\u{85}', '\u{a0}', '\u{bf}', '\u{c0}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{1680}', '\u{1681}',
        '\u{2000}', '\u{200b}', '\u{2028}', '\u{202f}', '\u{2030}', '\u{205f}', '\u{3000}', '\u{3001}', '\u{d000}', '\u{d7ff}', '\u{e000}', '\u{ffff}',
        '\u{10000}', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{10ffff}',
    ] {
        kinds.push(c.to_string());
    }
    let line = |t: &str| {
        let _ = p.parse(t.as_bytes());
    };
    for (pre, post) in [
        ("", ""), ("#", ""), ("# ", ""), ("#~", ""), ("#~ ", ""), ("msgid", ""), ("msgid ", ""), ("msgid \"", ""), ("msgid \"", "\""),
        ("msgid \"\\", "\""), ("msgid \"a", " \""), ("msgid \"a\"", ""),
        ("\"", "\""), ("\"\"", "\""), ("\"a", "\""), ("\"\\", "\""), ("msgid \"a", "\""), ("msgid \"\"", "\""), ("msgid \"\\\\", "\""),
    ] {
        for k in &kinds {
            if k != "\n" {
                line(&format!("{pre}{k}{post}\n"));
            }
        }
    }
    let al = ["a", "\\", "\"", "n", " ", "\x0b", "#"];
    for pre in ["\"", "msgid \"", "#~ \"", "#| msgctxt \"", "msgstr[0] \"", "msgid_plural\""] {
        for a in al {
            for b in al {
                for c in al {
                    line(&format!("{pre}{a}{b}{c}\"\n"));
                }
            }
        }
    }
    for l in ["de", "de_AT.UTF-8@euro", "zh-Hant-TW", "???", "x", "en-US-u-co", "*"] {
        line(&format!("msgid \"\"\nmsgstr \"Language: {l}\\nPlural-Forms: nplurals=2; plural=n!=1;\"\n"));
    }
    for k in ["msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[0]", "msgstr[1]", "msgstr[12]", ""] {
        for pre in ["", " ", "#~", "#~ ", "#|", "#| ", "#~|", "#~| "] {
            line(&format!("{pre}{k} \"x\"\n"));
            line(&format!("{pre}{k}\"\"\n"));
        }
    }
    Box::leak(Box::new(p))
}

#[no_mangle]
pub extern "C" fn h_smoke() {
    let p = warm();
    let s = bytes(4);
    let mut t = b"msgid \"".to_vec();
    t.extend_from_slice(&s);
    t.extend_from_slice(b"\"\nmsgstr \"x\"\n");
    let mut n = 0;
    if let Ok(r) = p.parse(&t[..]) {
        for u in r {
            match u {
                Ok(u) => {
                    n += 1;
                    check(u.message().get_id().len() <= 4, 1);
                    reach(1);
                    note_bytes(u.message().get_id().as_bytes());
                }
                Err(_) => reach(2),
            }
        }
    }
    check(n <= 1, 2);
    note(n);
}

macro_rules! entries {
    ($($m:ident::$n:ident),* $(,)?) => { pub static ENTRIES: &[(&str, extern "C" fn())] = &[("h_smoke", h_smoke), $((stringify!($n), $m::$n)),*]; };
}
entries! {
    c01::h_c01_raw, c01::h_c01_hole, c01::h_c01_nplurals, c01::h_c01_eval, c01::h_c01_deep,
    c02::h_c02_escape, c02::h_c02_long, c02::h_c02_utf8, c02::h_c02_body,
    c03::h_c03_shapes, c03::h_c03_order, c03::h_c03_lengths,
    c04::h_c04_text, c04::h_c04_values, c04::h_c04_keys, c04::h_c04_comments, c04::h_c04_first, c04::h_c04_language,
    c05::h_c05_real, c05::h_c05_ops, c05::h_c05_unary, c05::h_c05_literal, c05::h_c05_range,
    c06::h_c06_pairs, c06::h_c06_triples, c06::h_c06_unary, c06::h_c06_cond, c06::h_c06_blanks, c06::h_c06_text, c06::h_c06_hole,
    c07::h_c07_lookup, c07::h_c07_many, c07::h_c07_indices, c07::h_c07_undeclared, c07::h_c07_definition,
    c08::h_c08_line, c08::h_c08_disguise, c08::h_c08_flags, c08::h_c08_locations, c08::h_c08_mix, c08::h_c08_end, c08::h_c08_state, c08::h_c08_words,
    c09::h_c09_chunks, c09::h_c09_buffer, c09::h_c09_layout, c09::h_c09_blank,
    c10::h_c10_fail, c10::h_c10_line,
    c11::h_c11_after, c11::h_c11_first, c11::h_c11_inside, c11::h_c11_end, c11::h_c11_line, c11::h_c11_keyword,
    c12::h_c12_equal, c12::h_c12_transitive, c12::h_c12_simple, c12::h_c12_plural, c12::h_c12_mixed,
    c13::h_c13_history, c13::h_c13_interleaved, c13::h_c13_same,
    c01::h_c01_wide, c02::h_c02_lines, c16::h_c16_alike, c16::h_c16_first, c09::h_c09_bursts, c12::h_c12_previous, c14::h_c14_cut, c14::h_c14_string, c14::h_c14_make,
    c15::h_c15_bytes, c15::h_c15_defects, c15::h_c15_entries, c15::h_c15_twin,
    c16::h_c16_mark, c16::h_c16_mixed, c16::h_c16_sequence,
    c17::h_c17_bytes, c17::h_c17_line, c17::h_c17_kind,
    c18::h_c18_display, c18::h_c18_io, c18::h_c18_convert, c18::h_c18_reading,
    c19::h_c19_count, c19::h_c19_around, c19::h_c19_blanks,
    late::h_c01_late, late::h_c02_late, late::h_c03_late, late::h_c04_late, late::h_c07_late, late::h_c08_late, late::h_c09_late, late::h_c10_late, late::h_c11_late, late::h_c13_late, late::h_c14_late, late::h_c15_late, late::h_c16_late, late::h_c17_late, c19::h_c19_late, c11::h_c11_char, size::h_c01_many, c05::h_c05_signed, c04::h_c04_remark,
    c10::h_c10_kinds, c18::h_c18_any, twice::h_c15_pair, c09::h_c09_indent, c09::h_c09_parts, c06::h_c06_alike, c06::h_c06_number,
    twice::h_c05_twice, twice::h_c07_twice, twice::h_c13_lookup, twice::h_c02_pair, twice::h_c02_escapes, twice::h_c08_pair, twice::h_c13_texts, twice::h_c13_body, twice::h_c05_compound, twice::h_c09_gaps,
    make::h_c04_whole, make::h_c07_unit, make::h_c19_whole, c17::h_c17_long, c01::h_c01_shift,
    size::h_c02_big, size::h_c03_big, size::h_c03_alike, size::h_c03_iter, size::h_c04_big, size::h_c05_big, size::h_c07_big, size::h_c08_big, size::h_c10_far, size::h_c11_far, size::h_c12_big, size::h_c14_big, size::h_c16_big, size::h_c18_big,
}
