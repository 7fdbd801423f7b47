//! Expected entry of every named constant: (set, name, value, from, to). Derived from the Unicode names and
//! compatibility decompositions, with the documented exceptions; not from the values in the code.

use chanoma::characters_set::alphabets::Alphabets;
use chanoma::characters_set::cjk_compatibilities as cjk;
use chanoma::characters_set::digits::Digits;
use chanoma::characters_set::kanas::Kanas;
use chanoma::characters_set::punctuations::Punctuations;
use chanoma::{corr::Linear, Correspondence};

pub type Named = (&'static str, &'static str, Correspondence<Linear>, &'static str, &'static str);

#[rustfmt::skip]
pub fn all() -> Vec<Named> {
    vec![
        ("digits", "DIGIT_ZERO", Digits::DIGIT_ZERO, "\u{ff10}", "0"),
        ("digits", "DIGIT_ONE", Digits::DIGIT_ONE, "\u{ff11}", "1"),
        ("digits", "DIGIT_TWO", Digits::DIGIT_TWO, "\u{ff12}", "2"),
        ("digits", "DIGIT_THREE", Digits::DIGIT_THREE, "\u{ff13}", "3"),
        ("digits", "DIGIT_FOUR", Digits::DIGIT_FOUR, "\u{ff14}", "4"),
        ("digits", "DIGIT_FIVE", Digits::DIGIT_FIVE, "\u{ff15}", "5"),
        ("digits", "DIGIT_SIX", Digits::DIGIT_SIX, "\u{ff16}", "6"),
        ("digits", "DIGIT_SEVEN", Digits::DIGIT_SEVEN, "\u{ff17}", "7"),
        ("digits", "DIGIT_EIGHT", Digits::DIGIT_EIGHT, "\u{ff18}", "8"),
        ("digits", "DIGIT_NINE", Digits::DIGIT_NINE, "\u{ff19}", "9"),
        ("alphabets", "CAPITAL_LETTER_A", Alphabets::CAPITAL_LETTER_A, "\u{ff21}", "A"),
        ("alphabets", "CAPITAL_LETTER_B", Alphabets::CAPITAL_LETTER_B, "\u{ff22}", "B"),
        ("alphabets", "CAPITAL_LETTER_C", Alphabets::CAPITAL_LETTER_C, "\u{ff23}", "C"),
        ("alphabets", "CAPITAL_LETTER_D", Alphabets::CAPITAL_LETTER_D, "\u{ff24}", "D"),
        ("alphabets", "CAPITAL_LETTER_E", Alphabets::CAPITAL_LETTER_E, "\u{ff25}", "E"),
        ("alphabets", "CAPITAL_LETTER_F", Alphabets::CAPITAL_LETTER_F, "\u{ff26}", "F"),
        ("alphabets", "CAPITAL_LETTER_G", Alphabets::CAPITAL_LETTER_G, "\u{ff27}", "G"),
        ("alphabets", "CAPITAL_LETTER_H", Alphabets::CAPITAL_LETTER_H, "\u{ff28}", "H"),
        ("alphabets", "CAPITAL_LETTER_I", Alphabets::CAPITAL_LETTER_I, "\u{ff29}", "I"),
        ("alphabets", "CAPITAL_LETTER_J", Alphabets::CAPITAL_LETTER_J, "\u{ff2a}", "J"),
        ("alphabets", "CAPITAL_LETTER_K", Alphabets::CAPITAL_LETTER_K, "\u{ff2b}", "K"),
        ("alphabets", "CAPITAL_LETTER_L", Alphabets::CAPITAL_LETTER_L, "\u{ff2c}", "L"),
        ("alphabets", "CAPITAL_LETTER_M", Alphabets::CAPITAL_LETTER_M, "\u{ff2d}", "M"),
        ("alphabets", "CAPITAL_LETTER_N", Alphabets::CAPITAL_LETTER_N, "\u{ff2e}", "N"),
        ("alphabets", "CAPITAL_LETTER_O", Alphabets::CAPITAL_LETTER_O, "\u{ff2f}", "O"),
        ("alphabets", "CAPITAL_LETTER_P", Alphabets::CAPITAL_LETTER_P, "\u{ff30}", "P"),
        ("alphabets", "CAPITAL_LETTER_Q", Alphabets::CAPITAL_LETTER_Q, "\u{ff31}", "Q"),
        ("alphabets", "CAPITAL_LETTER_R", Alphabets::CAPITAL_LETTER_R, "\u{ff32}", "R"),
        ("alphabets", "CAPITAL_LETTER_S", Alphabets::CAPITAL_LETTER_S, "\u{ff33}", "S"),
        ("alphabets", "CAPITAL_LETTER_T", Alphabets::CAPITAL_LETTER_T, "\u{ff34}", "T"),
        ("alphabets", "CAPITAL_LETTER_U", Alphabets::CAPITAL_LETTER_U, "\u{ff35}", "U"),
        ("alphabets", "CAPITAL_LETTER_V", Alphabets::CAPITAL_LETTER_V, "\u{ff36}", "V"),
        ("alphabets", "CAPITAL_LETTER_W", Alphabets::CAPITAL_LETTER_W, "\u{ff37}", "W"),
        ("alphabets", "CAPITAL_LETTER_X", Alphabets::CAPITAL_LETTER_X, "\u{ff38}", "X"),
        ("alphabets", "CAPITAL_LETTER_Y", Alphabets::CAPITAL_LETTER_Y, "\u{ff39}", "Y"),
        ("alphabets", "CAPITAL_LETTER_Z", Alphabets::CAPITAL_LETTER_Z, "\u{ff3a}", "Z"),
        ("alphabets", "SMALL_LETTER_A", Alphabets::SMALL_LETTER_A, "\u{ff41}", "a"),
        ("alphabets", "SMALL_LETTER_B", Alphabets::SMALL_LETTER_B, "\u{ff42}", "b"),
        ("alphabets", "SMALL_LETTER_C", Alphabets::SMALL_LETTER_C, "\u{ff43}", "c"),
        ("alphabets", "SMALL_LETTER_D", Alphabets::SMALL_LETTER_D, "\u{ff44}", "d"),
        ("alphabets", "SMALL_LETTER_E", Alphabets::SMALL_LETTER_E, "\u{ff45}", "e"),
        ("alphabets", "SMALL_LETTER_F", Alphabets::SMALL_LETTER_F, "\u{ff46}", "f"),
        ("alphabets", "SMALL_LETTER_G", Alphabets::SMALL_LETTER_G, "\u{ff47}", "g"),
        ("alphabets", "SMALL_LETTER_H", Alphabets::SMALL_LETTER_H, "\u{ff48}", "h"),
        ("alphabets", "SMALL_LETTER_I", Alphabets::SMALL_LETTER_I, "\u{ff49}", "i"),
        ("alphabets", "SMALL_LETTER_J", Alphabets::SMALL_LETTER_J, "\u{ff4a}", "j"),
        ("alphabets", "SMALL_LETTER_K", Alphabets::SMALL_LETTER_K, "\u{ff4b}", "k"),
        ("alphabets", "SMALL_LETTER_L", Alphabets::SMALL_LETTER_L, "\u{ff4c}", "l"),
        ("alphabets", "SMALL_LETTER_M", Alphabets::SMALL_LETTER_M, "\u{ff4d}", "m"),
        ("alphabets", "SMALL_LETTER_N", Alphabets::SMALL_LETTER_N, "\u{ff4e}", "n"),
        ("alphabets", "SMALL_LETTER_O", Alphabets::SMALL_LETTER_O, "\u{ff4f}", "o"),
        ("alphabets", "SMALL_LETTER_P", Alphabets::SMALL_LETTER_P, "\u{ff50}", "p"),
        ("alphabets", "SMALL_LETTER_Q", Alphabets::SMALL_LETTER_Q, "\u{ff51}", "q"),
        ("alphabets", "SMALL_LETTER_R", Alphabets::SMALL_LETTER_R, "\u{ff52}", "r"),
        ("alphabets", "SMALL_LETTER_S", Alphabets::SMALL_LETTER_S, "\u{ff53}", "s"),
        ("alphabets", "SMALL_LETTER_T", Alphabets::SMALL_LETTER_T, "\u{ff54}", "t"),
        ("alphabets", "SMALL_LETTER_U", Alphabets::SMALL_LETTER_U, "\u{ff55}", "u"),
        ("alphabets", "SMALL_LETTER_V", Alphabets::SMALL_LETTER_V, "\u{ff56}", "v"),
        ("alphabets", "SMALL_LETTER_W", Alphabets::SMALL_LETTER_W, "\u{ff57}", "w"),
        ("alphabets", "SMALL_LETTER_X", Alphabets::SMALL_LETTER_X, "\u{ff58}", "x"),
        ("alphabets", "SMALL_LETTER_Y", Alphabets::SMALL_LETTER_Y, "\u{ff59}", "y"),
        ("alphabets", "SMALL_LETTER_Z", Alphabets::SMALL_LETTER_Z, "\u{ff5a}", "z"),
        ("punctuations", "EXCLAMATION_MARK", Punctuations::EXCLAMATION_MARK, "\u{ff01}", "!"),
        ("punctuations", "QUOTATION_MARK", Punctuations::QUOTATION_MARK, "\u{201d}", "\""),
        ("punctuations", "SHARP", Punctuations::SHARP, "\u{ff03}", "#"),
        ("punctuations", "DOLLER_SIGN", Punctuations::DOLLER_SIGN, "\u{ff04}", "$"),
        ("punctuations", "PERCENT_SIGN", Punctuations::PERCENT_SIGN, "\u{ff05}", "%"),
        ("punctuations", "AMPERSAND", Punctuations::AMPERSAND, "\u{ff06}", "&"),
        ("punctuations", "APOSTROPHE", Punctuations::APOSTROPHE, "\u{2019}", "'"),
        ("punctuations", "LEFT_PARENTHESIS", Punctuations::LEFT_PARENTHESIS, "\u{ff08}", "("),
        ("punctuations", "RIGHT_PARENTHESIS", Punctuations::RIGHT_PARENTHESIS, "\u{ff09}", ")"),
        ("punctuations", "ASTERISK", Punctuations::ASTERISK, "\u{ff0a}", "*"),
        ("punctuations", "PLUS_SIGN", Punctuations::PLUS_SIGN, "\u{ff0b}", "+"),
        ("punctuations", "COMMA", Punctuations::COMMA, "\u{ff0c}", ","),
        ("punctuations", "HYPHEN_MINUS", Punctuations::HYPHEN_MINUS, "\u{ff0d}", "-"),
        ("punctuations", "FULL_STOP", Punctuations::FULL_STOP, "\u{ff0e}", "."),
        ("punctuations", "SLASH", Punctuations::SLASH, "\u{ff0f}", "/"),
        ("punctuations", "COLON", Punctuations::COLON, "\u{ff1a}", ":"),
        ("punctuations", "SEMI_COLON", Punctuations::SEMI_COLON, "\u{ff1b}", ";"),
        ("punctuations", "LESS_THAN_SIGN", Punctuations::LESS_THAN_SIGN, "\u{ff1c}", "<"),
        ("punctuations", "EQUAL_SIGN", Punctuations::EQUAL_SIGN, "\u{ff1d}", "="),
        ("punctuations", "GREATER_THAN_SIGN", Punctuations::GREATER_THAN_SIGN, "\u{ff1e}", ">"),
        ("punctuations", "QUESTION_MARK", Punctuations::QUESTION_MARK, "\u{ff1f}", "?"),
        ("punctuations", "AT_SIGN", Punctuations::AT_SIGN, "\u{ff20}", "@"),
        ("punctuations", "LEFT_SQUARE_BRACKET", Punctuations::LEFT_SQUARE_BRACKET, "\u{ff3b}", "["),
        ("punctuations", "BACKSLASH", Punctuations::BACKSLASH, "\u{ff3c}", "\\"),
        ("punctuations", "YEN_SIGN", Punctuations::YEN_SIGN, "\u{ffe5}", "\u{a5}"),
        ("punctuations", "RIGHT_SQUARE_BRACKET", Punctuations::RIGHT_SQUARE_BRACKET, "\u{ff3d}", "]"),
        ("punctuations", "CIRCUMFLEX_ACCENT", Punctuations::CIRCUMFLEX_ACCENT, "\u{ff3e}", "^"),
        ("punctuations", "LOW_LINE", Punctuations::LOW_LINE, "\u{ff3f}", "_"),
        ("punctuations", "GRAVE_ACCENT", Punctuations::GRAVE_ACCENT, "\u{ff40}", "`"),
        ("punctuations", "LEFT_CURLY_BRACKET", Punctuations::LEFT_CURLY_BRACKET, "\u{ff5b}", "{"),
        ("punctuations", "VERTICAL_BAR", Punctuations::VERTICAL_BAR, "\u{ff5c}", "|"),
        ("punctuations", "RIGHT_CURLY_BRACKET", Punctuations::RIGHT_CURLY_BRACKET, "\u{ff5d}", "}"),
        ("punctuations", "TILDE", Punctuations::TILDE, "\u{301c}", "~"),
        ("kanas", "KATAKANA_LETTER_SMALL_A", Kanas::KATAKANA_LETTER_SMALL_A, "\u{ff67}", "\u{30a1}"),
        ("kanas", "KATAKANA_LETTER_A", Kanas::KATAKANA_LETTER_A, "\u{ff71}", "\u{30a2}"),
        ("kanas", "KATAKANA_LETTER_SMALL_I", Kanas::KATAKANA_LETTER_SMALL_I, "\u{ff68}", "\u{30a3}"),
        ("kanas", "KATAKANA_LETTER_I", Kanas::KATAKANA_LETTER_I, "\u{ff72}", "\u{30a4}"),
        ("kanas", "KATAKANA_LETTER_SMALL_U", Kanas::KATAKANA_LETTER_SMALL_U, "\u{ff69}", "\u{30a5}"),
        ("kanas", "KATAKANA_LETTER_U", Kanas::KATAKANA_LETTER_U, "\u{ff73}", "\u{30a6}"),
        ("kanas", "KATAKANA_LETTER_SMALL_E", Kanas::KATAKANA_LETTER_SMALL_E, "\u{ff6a}", "\u{30a7}"),
        ("kanas", "KATAKANA_LETTER_E", Kanas::KATAKANA_LETTER_E, "\u{ff74}", "\u{30a8}"),
        ("kanas", "KATAKANA_LETTER_SMALL_O", Kanas::KATAKANA_LETTER_SMALL_O, "\u{ff6b}", "\u{30a9}"),
        ("kanas", "KATAKANA_LETTER_O", Kanas::KATAKANA_LETTER_O, "\u{ff75}", "\u{30aa}"),
        ("kanas", "KATAKANA_LETTER_KA", Kanas::KATAKANA_LETTER_KA, "\u{ff76}", "\u{30ab}"),
        ("kanas", "KATAKANA_LETTER_KI", Kanas::KATAKANA_LETTER_KI, "\u{ff77}", "\u{30ad}"),
        ("kanas", "KATAKANA_LETTER_KU", Kanas::KATAKANA_LETTER_KU, "\u{ff78}", "\u{30af}"),
        ("kanas", "KATAKANA_LETTER_KE", Kanas::KATAKANA_LETTER_KE, "\u{ff79}", "\u{30b1}"),
        ("kanas", "KATAKANA_LETTER_KO", Kanas::KATAKANA_LETTER_KO, "\u{ff7a}", "\u{30b3}"),
        ("kanas", "KATAKANA_LETTER_SA", Kanas::KATAKANA_LETTER_SA, "\u{ff7b}", "\u{30b5}"),
        ("kanas", "KATAKANA_LETTER_SI", Kanas::KATAKANA_LETTER_SI, "\u{ff7c}", "\u{30b7}"),
        ("kanas", "KATAKANA_LETTER_SU", Kanas::KATAKANA_LETTER_SU, "\u{ff7d}", "\u{30b9}"),
        ("kanas", "KATAKANA_LETTER_SE", Kanas::KATAKANA_LETTER_SE, "\u{ff7e}", "\u{30bb}"),
        ("kanas", "KATAKANA_LETTER_SO", Kanas::KATAKANA_LETTER_SO, "\u{ff7f}", "\u{30bd}"),
        ("kanas", "KATAKANA_LETTER_TA", Kanas::KATAKANA_LETTER_TA, "\u{ff80}", "\u{30bf}"),
        ("kanas", "KATAKANA_LETTER_TI", Kanas::KATAKANA_LETTER_TI, "\u{ff81}", "\u{30c1}"),
        ("kanas", "KATAKANA_LETTER_SMALL_TU", Kanas::KATAKANA_LETTER_SMALL_TU, "\u{ff6f}", "\u{30c3}"),
        ("kanas", "KATAKANA_LETTER_TU", Kanas::KATAKANA_LETTER_TU, "\u{ff82}", "\u{30c4}"),
        ("kanas", "KATAKANA_LETTER_TE", Kanas::KATAKANA_LETTER_TE, "\u{ff83}", "\u{30c6}"),
        ("kanas", "KATAKANA_LETTER_TO", Kanas::KATAKANA_LETTER_TO, "\u{ff84}", "\u{30c8}"),
        ("kanas", "KATAKANA_LETTER_NA", Kanas::KATAKANA_LETTER_NA, "\u{ff85}", "\u{30ca}"),
        ("kanas", "KATAKANA_LETTER_NI", Kanas::KATAKANA_LETTER_NI, "\u{ff86}", "\u{30cb}"),
        ("kanas", "KATAKANA_LETTER_NU", Kanas::KATAKANA_LETTER_NU, "\u{ff87}", "\u{30cc}"),
        ("kanas", "KATAKANA_LETTER_NE", Kanas::KATAKANA_LETTER_NE, "\u{ff88}", "\u{30cd}"),
        ("kanas", "KATAKANA_LETTER_NO", Kanas::KATAKANA_LETTER_NO, "\u{ff89}", "\u{30ce}"),
        ("kanas", "KATAKANA_LETTER_HA", Kanas::KATAKANA_LETTER_HA, "\u{ff8a}", "\u{30cf}"),
        ("kanas", "KATAKANA_LETTER_HI", Kanas::KATAKANA_LETTER_HI, "\u{ff8b}", "\u{30d2}"),
        ("kanas", "KATAKANA_LETTER_HU", Kanas::KATAKANA_LETTER_HU, "\u{ff8c}", "\u{30d5}"),
        ("kanas", "KATAKANA_LETTER_HE", Kanas::KATAKANA_LETTER_HE, "\u{ff8d}", "\u{30d8}"),
        ("kanas", "KATAKANA_LETTER_HO", Kanas::KATAKANA_LETTER_HO, "\u{ff8e}", "\u{30db}"),
        ("kanas", "KATAKANA_LETTER_MA", Kanas::KATAKANA_LETTER_MA, "\u{ff8f}", "\u{30de}"),
        ("kanas", "KATAKANA_LETTER_MI", Kanas::KATAKANA_LETTER_MI, "\u{ff90}", "\u{30df}"),
        ("kanas", "KATAKANA_LETTER_MU", Kanas::KATAKANA_LETTER_MU, "\u{ff91}", "\u{30e0}"),
        ("kanas", "KATAKANA_LETTER_ME", Kanas::KATAKANA_LETTER_ME, "\u{ff92}", "\u{30e1}"),
        ("kanas", "KATAKANA_LETTER_MO", Kanas::KATAKANA_LETTER_MO, "\u{ff93}", "\u{30e2}"),
        ("kanas", "KATAKANA_LETTER_SMALL_YA", Kanas::KATAKANA_LETTER_SMALL_YA, "\u{ff6c}", "\u{30e3}"),
        ("kanas", "KATAKANA_LETTER_YA", Kanas::KATAKANA_LETTER_YA, "\u{ff94}", "\u{30e4}"),
        ("kanas", "KATAKANA_LETTER_SMALL_YU", Kanas::KATAKANA_LETTER_SMALL_YU, "\u{ff6d}", "\u{30e5}"),
        ("kanas", "KATAKANA_LETTER_YU", Kanas::KATAKANA_LETTER_YU, "\u{ff95}", "\u{30e6}"),
        ("kanas", "KATAKANA_LETTER_SMALL_YO", Kanas::KATAKANA_LETTER_SMALL_YO, "\u{ff6e}", "\u{30e7}"),
        ("kanas", "KATAKANA_LETTER_YO", Kanas::KATAKANA_LETTER_YO, "\u{ff96}", "\u{30e8}"),
        ("kanas", "KATAKANA_LETTER_RA", Kanas::KATAKANA_LETTER_RA, "\u{ff97}", "\u{30e9}"),
        ("kanas", "KATAKANA_LETTER_RI", Kanas::KATAKANA_LETTER_RI, "\u{ff98}", "\u{30ea}"),
        ("kanas", "KATAKANA_LETTER_RU", Kanas::KATAKANA_LETTER_RU, "\u{ff99}", "\u{30eb}"),
        ("kanas", "KATAKANA_LETTER_RE", Kanas::KATAKANA_LETTER_RE, "\u{ff9a}", "\u{30ec}"),
        ("kanas", "KATAKANA_LETTER_RO", Kanas::KATAKANA_LETTER_RO, "\u{ff9b}", "\u{30ed}"),
        ("kanas", "KATAKANA_LETTER_WA", Kanas::KATAKANA_LETTER_WA, "\u{ff9c}", "\u{30ef}"),
        ("kanas", "KATAKANA_LETTER_WO", Kanas::KATAKANA_LETTER_WO, "\u{ff66}", "\u{30f2}"),
        ("kanas", "KATAKANA_LETTER_N", Kanas::KATAKANA_LETTER_N, "\u{ff9d}", "\u{30f3}"),
        ("kanas", "IDEOGRAPHIC_COMMA", Kanas::IDEOGRAPHIC_COMMA, "\u{ff64}", "\u{3001}"),
        ("kanas", "IDEOGRAPHIC_FULL_STOP", Kanas::IDEOGRAPHIC_FULL_STOP, "\u{ff61}", "\u{3002}"),
        ("kanas", "KATAKANA_MIDDLE_DOT", Kanas::KATAKANA_MIDDLE_DOT, "\u{ff65}", "\u{30fb}"),
        ("kanas", "LEFT_CORNER_BRACKET", Kanas::LEFT_CORNER_BRACKET, "\u{ff62}", "\u{300c}"),
        ("kanas", "RIGHT_CORNER_BRACKET", Kanas::RIGHT_CORNER_BRACKET, "\u{ff63}", "\u{300d}"),
        ("kanas", "IDEOGRAPHIC_SPACE", Kanas::IDEOGRAPHIC_SPACE, "\u{3000}", " "),
        ("cjk_compatibilities", "SQUARE_APAATO", cjk::SQUARE_APAATO, "\u{3300}", "\u{30a2}\u{30d1}\u{30fc}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_ARUHUA", cjk::SQUARE_ARUHUA, "\u{3301}", "\u{30a2}\u{30eb}\u{30d5}\u{30a1}"),
        ("cjk_compatibilities", "SQUARE_ANPEA", cjk::SQUARE_ANPEA, "\u{3302}", "\u{30a2}\u{30f3}\u{30da}\u{30a2}"),
        ("cjk_compatibilities", "SQUARE_AARU", cjk::SQUARE_AARU, "\u{3303}", "\u{30a2}\u{30fc}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_ININGU", cjk::SQUARE_ININGU, "\u{3304}", "\u{30a4}\u{30cb}\u{30f3}\u{30b0}"),
        ("cjk_compatibilities", "SQUARE_INTI", cjk::SQUARE_INTI, "\u{3305}", "\u{30a4}\u{30f3}\u{30c1}"),
        ("cjk_compatibilities", "SQUARE_UON", cjk::SQUARE_UON, "\u{3306}", "\u{30a6}\u{30a9}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_ESUKUUDO", cjk::SQUARE_ESUKUUDO, "\u{3307}", "\u{30a8}\u{30b9}\u{30af}\u{30fc}\u{30c9}"),
        ("cjk_compatibilities", "SQUARE_EEKAA", cjk::SQUARE_EEKAA, "\u{3308}", "\u{30a8}\u{30fc}\u{30ab}\u{30fc}"),
        ("cjk_compatibilities", "SQUARE_ONSU", cjk::SQUARE_ONSU, "\u{3309}", "\u{30aa}\u{30f3}\u{30b9}"),
        ("cjk_compatibilities", "SQUARE_OOMU", cjk::SQUARE_OOMU, "\u{330a}", "\u{30aa}\u{30fc}\u{30e0}"),
        ("cjk_compatibilities", "SQUARE_KAIRI", cjk::SQUARE_KAIRI, "\u{330b}", "\u{30ab}\u{30a4}\u{30ea}"),
        ("cjk_compatibilities", "SQUARE_KARATTO", cjk::SQUARE_KARATTO, "\u{330c}", "\u{30ab}\u{30e9}\u{30c3}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_KARORII", cjk::SQUARE_KARORII, "\u{330d}", "\u{30ab}\u{30ed}\u{30ea}\u{30fc}"),
        ("cjk_compatibilities", "SQUARE_GARON", cjk::SQUARE_GARON, "\u{330e}", "\u{30ac}\u{30ed}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_GANMA", cjk::SQUARE_GANMA, "\u{330f}", "\u{30ac}\u{30f3}\u{30de}"),
        ("cjk_compatibilities", "SQUARE_GIGA", cjk::SQUARE_GIGA, "\u{3310}", "\u{30ae}\u{30ac}"),
        ("cjk_compatibilities", "SQUARE_GINII", cjk::SQUARE_GINII, "\u{3311}", "\u{30ae}\u{30cb}\u{30fc}"),
        ("cjk_compatibilities", "SQUARE_KYURII", cjk::SQUARE_KYURII, "\u{3312}", "\u{30ad}\u{30e5}\u{30ea}\u{30fc}"),
        ("cjk_compatibilities", "SQUARE_GIRUDAA", cjk::SQUARE_GIRUDAA, "\u{3313}", "\u{30ae}\u{30eb}\u{30c0}\u{30fc}"),
        ("cjk_compatibilities", "SQUARE_KIRO", cjk::SQUARE_KIRO, "\u{3314}", "\u{30ad}\u{30ed}"),
        ("cjk_compatibilities", "SQUARE_KIROGURAMU", cjk::SQUARE_KIROGURAMU, "\u{3315}", "\u{30ad}\u{30ed}\u{30b0}\u{30e9}\u{30e0}"),
        ("cjk_compatibilities", "SQUARE_KIROMEETORU", cjk::SQUARE_KIROMEETORU, "\u{3316}", "\u{30ad}\u{30ed}\u{30e1}\u{30fc}\u{30c8}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_KIROWATTO", cjk::SQUARE_KIROWATTO, "\u{3317}", "\u{30ad}\u{30ed}\u{30ef}\u{30c3}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_GURAMU", cjk::SQUARE_GURAMU, "\u{3318}", "\u{30b0}\u{30e9}\u{30e0}"),
        ("cjk_compatibilities", "SQUARE_GURAMUTON", cjk::SQUARE_GURAMUTON, "\u{3319}", "\u{30b0}\u{30e9}\u{30e0}\u{30c8}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_KURUZEIRO", cjk::SQUARE_KURUZEIRO, "\u{331a}", "\u{30af}\u{30eb}\u{30bc}\u{30a4}\u{30ed}"),
        ("cjk_compatibilities", "SQUARE_KUROONE", cjk::SQUARE_KUROONE, "\u{331b}", "\u{30af}\u{30ed}\u{30fc}\u{30cd}"),
        ("cjk_compatibilities", "SQUARE_KEESU", cjk::SQUARE_KEESU, "\u{331c}", "\u{30b1}\u{30fc}\u{30b9}"),
        ("cjk_compatibilities", "SQUARE_KORUNA", cjk::SQUARE_KORUNA, "\u{331d}", "\u{30b3}\u{30eb}\u{30ca}"),
        ("cjk_compatibilities", "SQUARE_KOOPO", cjk::SQUARE_KOOPO, "\u{331e}", "\u{30b3}\u{30fc}\u{30dd}"),
        ("cjk_compatibilities", "SQUARE_SAIKURU", cjk::SQUARE_SAIKURU, "\u{331f}", "\u{30b5}\u{30a4}\u{30af}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_SANTIIMU", cjk::SQUARE_SANTIIMU, "\u{3320}", "\u{30b5}\u{30f3}\u{30c1}\u{30fc}\u{30e0}"),
        ("cjk_compatibilities", "SQUARE_SIRINGU", cjk::SQUARE_SIRINGU, "\u{3321}", "\u{30b7}\u{30ea}\u{30f3}\u{30b0}"),
        ("cjk_compatibilities", "SQUARE_SENTI", cjk::SQUARE_SENTI, "\u{3322}", "\u{30bb}\u{30f3}\u{30c1}"),
        ("cjk_compatibilities", "SQUARE_SENTO", cjk::SQUARE_SENTO, "\u{3323}", "\u{30bb}\u{30f3}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_DAASU", cjk::SQUARE_DAASU, "\u{3324}", "\u{30c0}\u{30fc}\u{30b9}"),
        ("cjk_compatibilities", "SQUARE_DESI", cjk::SQUARE_DESI, "\u{3325}", "\u{30c7}\u{30b7}"),
        ("cjk_compatibilities", "SQUARE_DORU", cjk::SQUARE_DORU, "\u{3326}", "\u{30c9}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_TON", cjk::SQUARE_TON, "\u{3327}", "\u{30c8}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_NANO", cjk::SQUARE_NANO, "\u{3328}", "\u{30ca}\u{30ce}"),
        ("cjk_compatibilities", "SQUARE_NOTTO", cjk::SQUARE_NOTTO, "\u{3329}", "\u{30ce}\u{30c3}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_HAITU", cjk::SQUARE_HAITU, "\u{332a}", "\u{30cf}\u{30a4}\u{30c4}"),
        ("cjk_compatibilities", "SQUARE_PAASENTO", cjk::SQUARE_PAASENTO, "\u{332b}", "\u{30d1}\u{30fc}\u{30bb}\u{30f3}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_PAATU", cjk::SQUARE_PAATU, "\u{332c}", "\u{30d1}\u{30fc}\u{30c4}"),
        ("cjk_compatibilities", "SQUARE_BAARERU", cjk::SQUARE_BAARERU, "\u{332d}", "\u{30d0}\u{30fc}\u{30ec}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_PIASUTORU", cjk::SQUARE_PIASUTORU, "\u{332e}", "\u{30d4}\u{30a2}\u{30b9}\u{30c8}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_PIKURU", cjk::SQUARE_PIKURU, "\u{332f}", "\u{30d4}\u{30af}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_PIKO", cjk::SQUARE_PIKO, "\u{3330}", "\u{30d4}\u{30b3}"),
        ("cjk_compatibilities", "SQUARE_BIRU", cjk::SQUARE_BIRU, "\u{3331}", "\u{30d3}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_HUARADDO", cjk::SQUARE_HUARADDO, "\u{3332}", "\u{30d5}\u{30a1}\u{30e9}\u{30c3}\u{30c9}"),
        ("cjk_compatibilities", "SQUARE_HUIITO", cjk::SQUARE_HUIITO, "\u{3333}", "\u{30d5}\u{30a3}\u{30fc}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_BUSSYERU", cjk::SQUARE_BUSSYERU, "\u{3334}", "\u{30d6}\u{30c3}\u{30b7}\u{30a7}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_HURAN", cjk::SQUARE_HURAN, "\u{3335}", "\u{30d5}\u{30e9}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_HEKUTAARU", cjk::SQUARE_HEKUTAARU, "\u{3336}", "\u{30d8}\u{30af}\u{30bf}\u{30fc}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_PESO", cjk::SQUARE_PESO, "\u{3337}", "\u{30da}\u{30bd}"),
        ("cjk_compatibilities", "SQUARE_PENIHI", cjk::SQUARE_PENIHI, "\u{3338}", "\u{30da}\u{30cb}\u{30d2}"),
        ("cjk_compatibilities", "SQUARE_HERUTU", cjk::SQUARE_HERUTU, "\u{3339}", "\u{30d8}\u{30eb}\u{30c4}"),
        ("cjk_compatibilities", "SQUARE_PENSU", cjk::SQUARE_PENSU, "\u{333a}", "\u{30da}\u{30f3}\u{30b9}"),
        ("cjk_compatibilities", "SQUARE_PEEZI", cjk::SQUARE_PEEZI, "\u{333b}", "\u{30da}\u{30fc}\u{30b8}"),
        ("cjk_compatibilities", "SQUARE_BEETA", cjk::SQUARE_BEETA, "\u{333c}", "\u{30d9}\u{30fc}\u{30bf}"),
        ("cjk_compatibilities", "SQUARE_POINTO", cjk::SQUARE_POINTO, "\u{333d}", "\u{30dd}\u{30a4}\u{30f3}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_BORUTO", cjk::SQUARE_BORUTO, "\u{333e}", "\u{30dc}\u{30eb}\u{30c8}"),
        ("cjk_compatibilities", "SQUARE_HON", cjk::SQUARE_HON, "\u{333f}", "\u{30db}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_PONDO", cjk::SQUARE_PONDO, "\u{3340}", "\u{30dd}\u{30f3}\u{30c9}"),
        ("cjk_compatibilities", "SQUARE_HOORU", cjk::SQUARE_HOORU, "\u{3341}", "\u{30db}\u{30fc}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_HOON", cjk::SQUARE_HOON, "\u{3342}", "\u{30db}\u{30fc}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_MAIKURO", cjk::SQUARE_MAIKURO, "\u{3343}", "\u{30de}\u{30a4}\u{30af}\u{30ed}"),
        ("cjk_compatibilities", "SQUARE_MAIRU", cjk::SQUARE_MAIRU, "\u{3344}", "\u{30de}\u{30a4}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_MAHHA", cjk::SQUARE_MAHHA, "\u{3345}", "\u{30de}\u{30c3}\u{30cf}"),
        ("cjk_compatibilities", "SQUARE_MARUKU", cjk::SQUARE_MARUKU, "\u{3346}", "\u{30de}\u{30eb}\u{30af}"),
        ("cjk_compatibilities", "SQUARE_MANSYON", cjk::SQUARE_MANSYON, "\u{3347}", "\u{30de}\u{30f3}\u{30b7}\u{30e7}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_MIKURON", cjk::SQUARE_MIKURON, "\u{3348}", "\u{30df}\u{30af}\u{30ed}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_MIRI", cjk::SQUARE_MIRI, "\u{3349}", "\u{30df}\u{30ea}"),
        ("cjk_compatibilities", "SQUARE_MIRIBAARU", cjk::SQUARE_MIRIBAARU, "\u{334a}", "\u{30df}\u{30ea}\u{30d0}\u{30fc}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_MEGA", cjk::SQUARE_MEGA, "\u{334b}", "\u{30e1}\u{30ac}"),
        ("cjk_compatibilities", "SQUARE_MEGATON", cjk::SQUARE_MEGATON, "\u{334c}", "\u{30e1}\u{30ac}\u{30c8}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_MEETORU", cjk::SQUARE_MEETORU, "\u{334d}", "\u{30e1}\u{30fc}\u{30c8}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_YAADO", cjk::SQUARE_YAADO, "\u{334e}", "\u{30e4}\u{30fc}\u{30c9}"),
        ("cjk_compatibilities", "SQUARE_YAARU", cjk::SQUARE_YAARU, "\u{334f}", "\u{30e4}\u{30fc}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_YUAN", cjk::SQUARE_YUAN, "\u{3350}", "\u{30e6}\u{30a2}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_RITTORU", cjk::SQUARE_RITTORU, "\u{3351}", "\u{30ea}\u{30c3}\u{30c8}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_RIRA", cjk::SQUARE_RIRA, "\u{3352}", "\u{30ea}\u{30e9}"),
        ("cjk_compatibilities", "SQUARE_RUPII", cjk::SQUARE_RUPII, "\u{3353}", "\u{30eb}\u{30d4}\u{30fc}"),
        ("cjk_compatibilities", "SQUARE_RUUBURU", cjk::SQUARE_RUUBURU, "\u{3354}", "\u{30eb}\u{30fc}\u{30d6}\u{30eb}"),
        ("cjk_compatibilities", "SQUARE_REMU", cjk::SQUARE_REMU, "\u{3355}", "\u{30ec}\u{30e0}"),
        ("cjk_compatibilities", "SQUARE_RENTOGEN", cjk::SQUARE_RENTOGEN, "\u{3356}", "\u{30ec}\u{30f3}\u{30c8}\u{30b2}\u{30f3}"),
        ("cjk_compatibilities", "SQUARE_WATTO", cjk::SQUARE_WATTO, "\u{3357}", "\u{30ef}\u{30c3}\u{30c8}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO, "\u{3358}", "0\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE, "\u{3359}", "1\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO, "\u{335a}", "2\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE, "\u{335b}", "3\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR, "\u{335c}", "4\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE, "\u{335d}", "5\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX, "\u{335e}", "6\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN, "\u{335f}", "7\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT, "\u{3360}", "8\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE, "\u{3361}", "9\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN, "\u{3362}", "10\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN, "\u{3363}", "11\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE, "\u{3364}", "12\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN, "\u{3365}", "13\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN, "\u{3366}", "14\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN, "\u{3367}", "15\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN, "\u{3368}", "16\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN, "\u{3369}", "17\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN, "\u{336a}", "18\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN, "\u{336b}", "19\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY, "\u{336c}", "20\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE, "\u{336d}", "21\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO, "\u{336e}", "22\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE, "\u{336f}", "23\u{70b9}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR, "\u{3370}", "24\u{70b9}"),
        ("cjk_compatibilities", "SQUARE_HPA", cjk::SQUARE_HPA, "\u{3371}", "hPa"),
        ("cjk_compatibilities", "SQUARE_DA", cjk::SQUARE_DA, "\u{3372}", "da"),
        ("cjk_compatibilities", "SQUARE_AU", cjk::SQUARE_AU, "\u{3373}", "AU"),
        ("cjk_compatibilities", "SQUARE_BAR", cjk::SQUARE_BAR, "\u{3374}", "bar"),
        ("cjk_compatibilities", "SQUARE_OV", cjk::SQUARE_OV, "\u{3375}", "oV"),
        ("cjk_compatibilities", "SQUARE_PC", cjk::SQUARE_PC, "\u{3376}", "pc"),
        ("cjk_compatibilities", "SQUARE_DM", cjk::SQUARE_DM, "\u{3377}", "dm"),
        ("cjk_compatibilities", "SQUARE_DM_SQUARED", cjk::SQUARE_DM_SQUARED, "\u{3378}", "dm2"),
        ("cjk_compatibilities", "SQUARE_DM_CUBED", cjk::SQUARE_DM_CUBED, "\u{3379}", "dm3"),
        ("cjk_compatibilities", "SQUARE_IU", cjk::SQUARE_IU, "\u{337a}", "IU"),
        ("cjk_compatibilities", "SQUARE_ERA_NAME_HEISEI", cjk::SQUARE_ERA_NAME_HEISEI, "\u{337b}", "\u{5e73}\u{6210}"),
        ("cjk_compatibilities", "SQUARE_ERA_NAME_SYOUWA", cjk::SQUARE_ERA_NAME_SYOUWA, "\u{337c}", "\u{662d}\u{548c}"),
        ("cjk_compatibilities", "SQUARE_ERA_NAME_TAISYOU", cjk::SQUARE_ERA_NAME_TAISYOU, "\u{337d}", "\u{5927}\u{6b63}"),
        ("cjk_compatibilities", "SQUARE_ERA_NAME_MEIZI", cjk::SQUARE_ERA_NAME_MEIZI, "\u{337e}", "\u{660e}\u{6cbb}"),
        ("cjk_compatibilities", "SQUARE_CORPORATION", cjk::SQUARE_CORPORATION, "\u{337f}", "\u{682a}\u{5f0f}\u{4f1a}\u{793e}"),
        ("cjk_compatibilities", "SQUARE_PA_AMPS", cjk::SQUARE_PA_AMPS, "\u{3380}", "pA"),
        ("cjk_compatibilities", "SQUARE_NA", cjk::SQUARE_NA, "\u{3381}", "nA"),
        ("cjk_compatibilities", "SQUARE_MU_A", cjk::SQUARE_MU_A, "\u{3382}", "\u{b5}A"),
        ("cjk_compatibilities", "SQUARE_MA", cjk::SQUARE_MA, "\u{3383}", "mA"),
        ("cjk_compatibilities", "SQUARE_KA", cjk::SQUARE_KA, "\u{3384}", "kA"),
        ("cjk_compatibilities", "SQUARE_KB", cjk::SQUARE_KB, "\u{3385}", "KB"),
        ("cjk_compatibilities", "SQUARE_MB", cjk::SQUARE_MB, "\u{3386}", "MB"),
        ("cjk_compatibilities", "SQUARE_GB", cjk::SQUARE_GB, "\u{3387}", "GB"),
        ("cjk_compatibilities", "SQUARE_CAL", cjk::SQUARE_CAL, "\u{3388}", "cal"),
        ("cjk_compatibilities", "SQUARE_KCAL", cjk::SQUARE_KCAL, "\u{3389}", "kcal"),
        ("cjk_compatibilities", "SQUARE_PF", cjk::SQUARE_PF, "\u{338a}", "pF"),
        ("cjk_compatibilities", "SQUARE_NF", cjk::SQUARE_NF, "\u{338b}", "nF"),
        ("cjk_compatibilities", "SQUARE_MU_F", cjk::SQUARE_MU_F, "\u{338c}", "\u{b5}F"),
        ("cjk_compatibilities", "SQUARE_MU_G", cjk::SQUARE_MU_G, "\u{338d}", "\u{b5}g"),
        ("cjk_compatibilities", "SQUARE_MG", cjk::SQUARE_MG, "\u{338e}", "mg"),
        ("cjk_compatibilities", "SQUARE_KG", cjk::SQUARE_KG, "\u{338f}", "kg"),
        ("cjk_compatibilities", "SQUARE_HZ", cjk::SQUARE_HZ, "\u{3390}", "Hz"),
        ("cjk_compatibilities", "SQUARE_KHZ", cjk::SQUARE_KHZ, "\u{3391}", "kHz"),
        ("cjk_compatibilities", "SQUARE_MHZ", cjk::SQUARE_MHZ, "\u{3392}", "MHz"),
        ("cjk_compatibilities", "SQUARE_GHZ", cjk::SQUARE_GHZ, "\u{3393}", "GHz"),
        ("cjk_compatibilities", "SQUARE_THZ", cjk::SQUARE_THZ, "\u{3394}", "THz"),
        ("cjk_compatibilities", "SQUARE_MU_L", cjk::SQUARE_MU_L, "\u{3395}", "\u{b5}l"),
        ("cjk_compatibilities", "SQUARE_ML", cjk::SQUARE_ML, "\u{3396}", "ml"),
        ("cjk_compatibilities", "SQUARE_DL", cjk::SQUARE_DL, "\u{3397}", "dl"),
        ("cjk_compatibilities", "SQUARE_KL", cjk::SQUARE_KL, "\u{3398}", "kl"),
        ("cjk_compatibilities", "SQUARE_FM", cjk::SQUARE_FM, "\u{3399}", "fm"),
        ("cjk_compatibilities", "SQUARE_NM", cjk::SQUARE_NM, "\u{339a}", "nm"),
        ("cjk_compatibilities", "SQUARE_MU_M", cjk::SQUARE_MU_M, "\u{339b}", "\u{b5}m"),
        ("cjk_compatibilities", "SQUARE_MM", cjk::SQUARE_MM, "\u{339c}", "mm"),
        ("cjk_compatibilities", "SQUARE_CM", cjk::SQUARE_CM, "\u{339d}", "cm"),
        ("cjk_compatibilities", "SQUARE_KM", cjk::SQUARE_KM, "\u{339e}", "km"),
        ("cjk_compatibilities", "SQUARE_MM_SQUARED", cjk::SQUARE_MM_SQUARED, "\u{339f}", "mm2"),
        ("cjk_compatibilities", "SQUARE_CM_SQUARED", cjk::SQUARE_CM_SQUARED, "\u{33a0}", "cm2"),
        ("cjk_compatibilities", "SQUARE_M_SQUARED", cjk::SQUARE_M_SQUARED, "\u{33a1}", "m2"),
        ("cjk_compatibilities", "SQUARE_KM_SQUARED", cjk::SQUARE_KM_SQUARED, "\u{33a2}", "km2"),
        ("cjk_compatibilities", "SQUARE_MM_CUBED", cjk::SQUARE_MM_CUBED, "\u{33a3}", "mm3"),
        ("cjk_compatibilities", "SQUARE_CM_CUBED", cjk::SQUARE_CM_CUBED, "\u{33a4}", "cm3"),
        ("cjk_compatibilities", "SQUARE_M_CUBED", cjk::SQUARE_M_CUBED, "\u{33a5}", "m3"),
        ("cjk_compatibilities", "SQUARE_KM_CUBED", cjk::SQUARE_KM_CUBED, "\u{33a6}", "km3"),
        ("cjk_compatibilities", "SQUARE_M_OVER_S", cjk::SQUARE_M_OVER_S, "\u{33a7}", "m/s"),
        ("cjk_compatibilities", "SQUARE_M_OVER_S_SQUARED", cjk::SQUARE_M_OVER_S_SQUARED, "\u{33a8}", "m/s2"),
        ("cjk_compatibilities", "SQUARE_PA", cjk::SQUARE_PA, "\u{33a9}", "Pa"),
        ("cjk_compatibilities", "SQUARE_KPA", cjk::SQUARE_KPA, "\u{33aa}", "kPa"),
        ("cjk_compatibilities", "SQUARE_MPA", cjk::SQUARE_MPA, "\u{33ab}", "MPa"),
        ("cjk_compatibilities", "SQUARE_GPA", cjk::SQUARE_GPA, "\u{33ac}", "GPa"),
        ("cjk_compatibilities", "SQUARE_RAD", cjk::SQUARE_RAD, "\u{33ad}", "rad"),
        ("cjk_compatibilities", "SQUARE_RAD_OVER_S", cjk::SQUARE_RAD_OVER_S, "\u{33ae}", "rad/s"),
        ("cjk_compatibilities", "SQUARE_RAD_OVER_S_SQUARED", cjk::SQUARE_RAD_OVER_S_SQUARED, "\u{33af}", "rad/s2"),
        ("cjk_compatibilities", "SQUARE_PS", cjk::SQUARE_PS, "\u{33b0}", "ps"),
        ("cjk_compatibilities", "SQUARE_NS", cjk::SQUARE_NS, "\u{33b1}", "ns"),
        ("cjk_compatibilities", "SQUARE_MU_S", cjk::SQUARE_MU_S, "\u{33b2}", "\u{b5}s"),
        ("cjk_compatibilities", "SQUARE_MS", cjk::SQUARE_MS, "\u{33b3}", "ms"),
        ("cjk_compatibilities", "SQUARE_PV", cjk::SQUARE_PV, "\u{33b4}", "pV"),
        ("cjk_compatibilities", "SQUARE_NV", cjk::SQUARE_NV, "\u{33b5}", "nV"),
        ("cjk_compatibilities", "SQUARE_MU_V", cjk::SQUARE_MU_V, "\u{33b6}", "\u{b5}V"),
        ("cjk_compatibilities", "SQUARE_MV", cjk::SQUARE_MV, "\u{33b7}", "mV"),
        ("cjk_compatibilities", "SQUARE_KV", cjk::SQUARE_KV, "\u{33b8}", "kV"),
        ("cjk_compatibilities", "SQUARE_MV_MEGA", cjk::SQUARE_MV_MEGA, "\u{33b9}", "MV"),
        ("cjk_compatibilities", "SQUARE_PW", cjk::SQUARE_PW, "\u{33ba}", "pW"),
        ("cjk_compatibilities", "SQUARE_NW", cjk::SQUARE_NW, "\u{33bb}", "nW"),
        ("cjk_compatibilities", "SQUARE_MU_W", cjk::SQUARE_MU_W, "\u{33bc}", "\u{b5}W"),
        ("cjk_compatibilities", "SQUARE_MW", cjk::SQUARE_MW, "\u{33bd}", "mW"),
        ("cjk_compatibilities", "SQUARE_KW", cjk::SQUARE_KW, "\u{33be}", "kW"),
        ("cjk_compatibilities", "SQUARE_MW_MEGA", cjk::SQUARE_MW_MEGA, "\u{33bf}", "MW"),
        ("cjk_compatibilities", "SQUARE_K_OHM", cjk::SQUARE_K_OHM, "\u{33c0}", "k\u{3a9}"),
        ("cjk_compatibilities", "SQUARE_M_OHM", cjk::SQUARE_M_OHM, "\u{33c1}", "M\u{3a9}"),
        ("cjk_compatibilities", "SQUARE_AM", cjk::SQUARE_AM, "\u{33c2}", "a.m."),
        ("cjk_compatibilities", "SQUARE_BQ", cjk::SQUARE_BQ, "\u{33c3}", "Bq"),
        ("cjk_compatibilities", "SQUARE_CC", cjk::SQUARE_CC, "\u{33c4}", "cc"),
        ("cjk_compatibilities", "SQUARE_CD", cjk::SQUARE_CD, "\u{33c5}", "cd"),
        ("cjk_compatibilities", "SQUARE_C_OVER_KG", cjk::SQUARE_C_OVER_KG, "\u{33c6}", "C/kg"),
        ("cjk_compatibilities", "SQUARE_CO", cjk::SQUARE_CO, "\u{33c7}", "Co."),
        ("cjk_compatibilities", "SQUARE_DB", cjk::SQUARE_DB, "\u{33c8}", "dB"),
        ("cjk_compatibilities", "SQUARE_GY", cjk::SQUARE_GY, "\u{33c9}", "Gy"),
        ("cjk_compatibilities", "SQUARE_HA", cjk::SQUARE_HA, "\u{33ca}", "ha"),
        ("cjk_compatibilities", "SQUARE_HP", cjk::SQUARE_HP, "\u{33cb}", "HP"),
        ("cjk_compatibilities", "SQUARE_IN", cjk::SQUARE_IN, "\u{33cc}", "in"),
        ("cjk_compatibilities", "SQUARE_KK", cjk::SQUARE_KK, "\u{33cd}", "K.K."),
        ("cjk_compatibilities", "SQUARE_KM_CAPITAL", cjk::SQUARE_KM_CAPITAL, "\u{33ce}", "KM"),
        ("cjk_compatibilities", "SQUARE_KT", cjk::SQUARE_KT, "\u{33cf}", "kt"),
        ("cjk_compatibilities", "SQUARE_LM", cjk::SQUARE_LM, "\u{33d0}", "lm"),
        ("cjk_compatibilities", "SQUARE_LN", cjk::SQUARE_LN, "\u{33d1}", "ln"),
        ("cjk_compatibilities", "SQUARE_LOG", cjk::SQUARE_LOG, "\u{33d2}", "log"),
        ("cjk_compatibilities", "SQUARE_LX", cjk::SQUARE_LX, "\u{33d3}", "lx"),
        ("cjk_compatibilities", "SQUARE_MB_SMALL", cjk::SQUARE_MB_SMALL, "\u{33d4}", "mb"),
        ("cjk_compatibilities", "SQUARE_MIL", cjk::SQUARE_MIL, "\u{33d5}", "mil"),
        ("cjk_compatibilities", "SQUARE_MOL", cjk::SQUARE_MOL, "\u{33d6}", "mol"),
        ("cjk_compatibilities", "SQUARE_PH", cjk::SQUARE_PH, "\u{33d7}", "pH"),
        ("cjk_compatibilities", "SQUARE_PM", cjk::SQUARE_PM, "\u{33d8}", "p.m."),
        ("cjk_compatibilities", "SQUARE_PPM", cjk::SQUARE_PPM, "\u{33d9}", "ppm"),
        ("cjk_compatibilities", "SQUARE_PR", cjk::SQUARE_PR, "\u{33da}", "PR"),
        ("cjk_compatibilities", "SQUARE_SR", cjk::SQUARE_SR, "\u{33db}", "sr"),
        ("cjk_compatibilities", "SQUARE_SV", cjk::SQUARE_SV, "\u{33dc}", "Sv"),
        ("cjk_compatibilities", "SQUARE_WB", cjk::SQUARE_WB, "\u{33dd}", "Wb"),
        ("cjk_compatibilities", "SQUARE_V_OVER_M", cjk::SQUARE_V_OVER_M, "\u{33de}", "V/m"),
        ("cjk_compatibilities", "SQUARE_A_OVER_M", cjk::SQUARE_A_OVER_M, "\u{33df}", "A/m"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE, "\u{33e0}", "1\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO, "\u{33e1}", "2\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE, "\u{33e2}", "3\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR, "\u{33e3}", "4\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE, "\u{33e4}", "5\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX, "\u{33e5}", "6\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN, "\u{33e6}", "7\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT, "\u{33e7}", "8\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE, "\u{33e8}", "9\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN, "\u{33e9}", "10\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN, "\u{33ea}", "11\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE, "\u{33eb}", "12\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN, "\u{33ec}", "13\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN, "\u{33ed}", "14\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN, "\u{33ee}", "15\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN, "\u{33ef}", "16\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN, "\u{33f0}", "17\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN, "\u{33f1}", "18\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN, "\u{33f2}", "19\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY, "\u{33f3}", "20\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE, "\u{33f4}", "21\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO, "\u{33f5}", "22\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE, "\u{33f6}", "23\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR, "\u{33f7}", "24\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE, "\u{33f8}", "25\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX, "\u{33f9}", "26\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN, "\u{33fa}", "27\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT, "\u{33fb}", "28\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE, "\u{33fc}", "29\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY, "\u{33fd}", "30\u{65e5}"),
        ("cjk_compatibilities", "IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE, "\u{33fe}", "31\u{65e5}"),
        ("cjk_compatibilities", "SQUARE_GAL", cjk::SQUARE_GAL, "\u{33ff}", "gal"),
    ]
}
