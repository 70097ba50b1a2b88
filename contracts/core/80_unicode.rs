// generated by tools/gen_unicode.py
/// TRUSTED: pest's property tables, one uninterpreted class of characters each.
pub uninterp spec fn unicode_in_ALPHABETIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ALPHABETIC(c: char) -> (r: bool) ensures r == unicode_in_ALPHABETIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BIDI_CONTROL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BIDI_CONTROL(c: char) -> (r: bool) ensures r == unicode_in_BIDI_CONTROL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CASE_IGNORABLE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CASE_IGNORABLE(c: char) -> (r: bool) ensures r == unicode_in_CASE_IGNORABLE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CASED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CASED(c: char) -> (r: bool) ensures r == unicode_in_CASED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHANGES_WHEN_CASEFOLDED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHANGES_WHEN_CASEFOLDED(c: char) -> (r: bool) ensures r == unicode_in_CHANGES_WHEN_CASEFOLDED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHANGES_WHEN_CASEMAPPED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHANGES_WHEN_CASEMAPPED(c: char) -> (r: bool) ensures r == unicode_in_CHANGES_WHEN_CASEMAPPED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHANGES_WHEN_LOWERCASED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHANGES_WHEN_LOWERCASED(c: char) -> (r: bool) ensures r == unicode_in_CHANGES_WHEN_LOWERCASED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHANGES_WHEN_TITLECASED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHANGES_WHEN_TITLECASED(c: char) -> (r: bool) ensures r == unicode_in_CHANGES_WHEN_TITLECASED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHANGES_WHEN_UPPERCASED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHANGES_WHEN_UPPERCASED(c: char) -> (r: bool) ensures r == unicode_in_CHANGES_WHEN_UPPERCASED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DASH(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DASH(c: char) -> (r: bool) ensures r == unicode_in_DASH(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DEFAULT_IGNORABLE_CODE_POINT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DEFAULT_IGNORABLE_CODE_POINT(c: char) -> (r: bool) ensures r == unicode_in_DEFAULT_IGNORABLE_CODE_POINT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DEPRECATED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DEPRECATED(c: char) -> (r: bool) ensures r == unicode_in_DEPRECATED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DIACRITIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DIACRITIC(c: char) -> (r: bool) ensures r == unicode_in_DIACRITIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_EMOJI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_EMOJI(c: char) -> (r: bool) ensures r == unicode_in_EMOJI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_EMOJI_COMPONENT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_EMOJI_COMPONENT(c: char) -> (r: bool) ensures r == unicode_in_EMOJI_COMPONENT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_EMOJI_MODIFIER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_EMOJI_MODIFIER(c: char) -> (r: bool) ensures r == unicode_in_EMOJI_MODIFIER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_EMOJI_MODIFIER_BASE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_EMOJI_MODIFIER_BASE(c: char) -> (r: bool) ensures r == unicode_in_EMOJI_MODIFIER_BASE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_EMOJI_PRESENTATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_EMOJI_PRESENTATION(c: char) -> (r: bool) ensures r == unicode_in_EMOJI_PRESENTATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_EXTENDED_PICTOGRAPHIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_EXTENDED_PICTOGRAPHIC(c: char) -> (r: bool) ensures r == unicode_in_EXTENDED_PICTOGRAPHIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_EXTENDER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_EXTENDER(c: char) -> (r: bool) ensures r == unicode_in_EXTENDER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GRAPHEME_BASE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GRAPHEME_BASE(c: char) -> (r: bool) ensures r == unicode_in_GRAPHEME_BASE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GRAPHEME_EXTEND(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GRAPHEME_EXTEND(c: char) -> (r: bool) ensures r == unicode_in_GRAPHEME_EXTEND(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GRAPHEME_LINK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GRAPHEME_LINK(c: char) -> (r: bool) ensures r == unicode_in_GRAPHEME_LINK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HEX_DIGIT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HEX_DIGIT(c: char) -> (r: bool) ensures r == unicode_in_HEX_DIGIT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HYPHEN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HYPHEN(c: char) -> (r: bool) ensures r == unicode_in_HYPHEN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_IDS_BINARY_OPERATOR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_IDS_BINARY_OPERATOR(c: char) -> (r: bool) ensures r == unicode_in_IDS_BINARY_OPERATOR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_IDS_TRINARY_OPERATOR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_IDS_TRINARY_OPERATOR(c: char) -> (r: bool) ensures r == unicode_in_IDS_TRINARY_OPERATOR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ID_CONTINUE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ID_CONTINUE(c: char) -> (r: bool) ensures r == unicode_in_ID_CONTINUE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ID_START(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ID_START(c: char) -> (r: bool) ensures r == unicode_in_ID_START(c) { unimplemented!() }
pub uninterp spec fn unicode_in_IDEOGRAPHIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_IDEOGRAPHIC(c: char) -> (r: bool) ensures r == unicode_in_IDEOGRAPHIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_JOIN_CONTROL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_JOIN_CONTROL(c: char) -> (r: bool) ensures r == unicode_in_JOIN_CONTROL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LOGICAL_ORDER_EXCEPTION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LOGICAL_ORDER_EXCEPTION(c: char) -> (r: bool) ensures r == unicode_in_LOGICAL_ORDER_EXCEPTION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LOWERCASE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LOWERCASE(c: char) -> (r: bool) ensures r == unicode_in_LOWERCASE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MATH(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MATH(c: char) -> (r: bool) ensures r == unicode_in_MATH(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NONCHARACTER_CODE_POINT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NONCHARACTER_CODE_POINT(c: char) -> (r: bool) ensures r == unicode_in_NONCHARACTER_CODE_POINT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_ALPHABETIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_ALPHABETIC(c: char) -> (r: bool) ensures r == unicode_in_OTHER_ALPHABETIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_DEFAULT_IGNORABLE_CODE_POINT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_DEFAULT_IGNORABLE_CODE_POINT(c: char) -> (r: bool) ensures r == unicode_in_OTHER_DEFAULT_IGNORABLE_CODE_POINT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_GRAPHEME_EXTEND(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_GRAPHEME_EXTEND(c: char) -> (r: bool) ensures r == unicode_in_OTHER_GRAPHEME_EXTEND(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_ID_CONTINUE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_ID_CONTINUE(c: char) -> (r: bool) ensures r == unicode_in_OTHER_ID_CONTINUE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_ID_START(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_ID_START(c: char) -> (r: bool) ensures r == unicode_in_OTHER_ID_START(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_LOWERCASE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_LOWERCASE(c: char) -> (r: bool) ensures r == unicode_in_OTHER_LOWERCASE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_MATH(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_MATH(c: char) -> (r: bool) ensures r == unicode_in_OTHER_MATH(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_UPPERCASE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_UPPERCASE(c: char) -> (r: bool) ensures r == unicode_in_OTHER_UPPERCASE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PATTERN_SYNTAX(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PATTERN_SYNTAX(c: char) -> (r: bool) ensures r == unicode_in_PATTERN_SYNTAX(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PATTERN_WHITE_SPACE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PATTERN_WHITE_SPACE(c: char) -> (r: bool) ensures r == unicode_in_PATTERN_WHITE_SPACE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PREPENDED_CONCATENATION_MARK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PREPENDED_CONCATENATION_MARK(c: char) -> (r: bool) ensures r == unicode_in_PREPENDED_CONCATENATION_MARK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_QUOTATION_MARK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_QUOTATION_MARK(c: char) -> (r: bool) ensures r == unicode_in_QUOTATION_MARK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_RADICAL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_RADICAL(c: char) -> (r: bool) ensures r == unicode_in_RADICAL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_REGIONAL_INDICATOR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_REGIONAL_INDICATOR(c: char) -> (r: bool) ensures r == unicode_in_REGIONAL_INDICATOR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SENTENCE_TERMINAL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SENTENCE_TERMINAL(c: char) -> (r: bool) ensures r == unicode_in_SENTENCE_TERMINAL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SOFT_DOTTED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SOFT_DOTTED(c: char) -> (r: bool) ensures r == unicode_in_SOFT_DOTTED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TERMINAL_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TERMINAL_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_TERMINAL_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_UNIFIED_IDEOGRAPH(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_UNIFIED_IDEOGRAPH(c: char) -> (r: bool) ensures r == unicode_in_UNIFIED_IDEOGRAPH(c) { unimplemented!() }
pub uninterp spec fn unicode_in_UPPERCASE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_UPPERCASE(c: char) -> (r: bool) ensures r == unicode_in_UPPERCASE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_VARIATION_SELECTOR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_VARIATION_SELECTOR(c: char) -> (r: bool) ensures r == unicode_in_VARIATION_SELECTOR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_WHITE_SPACE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_WHITE_SPACE(c: char) -> (r: bool) ensures r == unicode_in_WHITE_SPACE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_XID_CONTINUE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_XID_CONTINUE(c: char) -> (r: bool) ensures r == unicode_in_XID_CONTINUE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_XID_START(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_XID_START(c: char) -> (r: bool) ensures r == unicode_in_XID_START(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CASED_LETTER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CASED_LETTER(c: char) -> (r: bool) ensures r == unicode_in_CASED_LETTER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CLOSE_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CLOSE_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_CLOSE_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CONNECTOR_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CONNECTOR_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_CONNECTOR_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CONTROL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CONTROL(c: char) -> (r: bool) ensures r == unicode_in_CONTROL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CURRENCY_SYMBOL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CURRENCY_SYMBOL(c: char) -> (r: bool) ensures r == unicode_in_CURRENCY_SYMBOL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DASH_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DASH_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_DASH_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DECIMAL_NUMBER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DECIMAL_NUMBER(c: char) -> (r: bool) ensures r == unicode_in_DECIMAL_NUMBER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ENCLOSING_MARK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ENCLOSING_MARK(c: char) -> (r: bool) ensures r == unicode_in_ENCLOSING_MARK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_FINAL_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_FINAL_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_FINAL_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_FORMAT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_FORMAT(c: char) -> (r: bool) ensures r == unicode_in_FORMAT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_INITIAL_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_INITIAL_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_INITIAL_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LETTER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LETTER(c: char) -> (r: bool) ensures r == unicode_in_LETTER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LETTER_NUMBER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LETTER_NUMBER(c: char) -> (r: bool) ensures r == unicode_in_LETTER_NUMBER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LINE_SEPARATOR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LINE_SEPARATOR(c: char) -> (r: bool) ensures r == unicode_in_LINE_SEPARATOR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LOWERCASE_LETTER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LOWERCASE_LETTER(c: char) -> (r: bool) ensures r == unicode_in_LOWERCASE_LETTER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MARK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MARK(c: char) -> (r: bool) ensures r == unicode_in_MARK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MATH_SYMBOL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MATH_SYMBOL(c: char) -> (r: bool) ensures r == unicode_in_MATH_SYMBOL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MODIFIER_LETTER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MODIFIER_LETTER(c: char) -> (r: bool) ensures r == unicode_in_MODIFIER_LETTER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MODIFIER_SYMBOL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MODIFIER_SYMBOL(c: char) -> (r: bool) ensures r == unicode_in_MODIFIER_SYMBOL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NONSPACING_MARK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NONSPACING_MARK(c: char) -> (r: bool) ensures r == unicode_in_NONSPACING_MARK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NUMBER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NUMBER(c: char) -> (r: bool) ensures r == unicode_in_NUMBER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OPEN_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OPEN_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_OPEN_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER(c: char) -> (r: bool) ensures r == unicode_in_OTHER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_LETTER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_LETTER(c: char) -> (r: bool) ensures r == unicode_in_OTHER_LETTER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_NUMBER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_NUMBER(c: char) -> (r: bool) ensures r == unicode_in_OTHER_NUMBER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_OTHER_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OTHER_SYMBOL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OTHER_SYMBOL(c: char) -> (r: bool) ensures r == unicode_in_OTHER_SYMBOL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PARAGRAPH_SEPARATOR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PARAGRAPH_SEPARATOR(c: char) -> (r: bool) ensures r == unicode_in_PARAGRAPH_SEPARATOR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PRIVATE_USE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PRIVATE_USE(c: char) -> (r: bool) ensures r == unicode_in_PRIVATE_USE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PUNCTUATION(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PUNCTUATION(c: char) -> (r: bool) ensures r == unicode_in_PUNCTUATION(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SEPARATOR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SEPARATOR(c: char) -> (r: bool) ensures r == unicode_in_SEPARATOR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SPACE_SEPARATOR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SPACE_SEPARATOR(c: char) -> (r: bool) ensures r == unicode_in_SPACE_SEPARATOR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SPACING_MARK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SPACING_MARK(c: char) -> (r: bool) ensures r == unicode_in_SPACING_MARK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SURROGATE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SURROGATE(c: char) -> (r: bool) ensures r == unicode_in_SURROGATE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SYMBOL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SYMBOL(c: char) -> (r: bool) ensures r == unicode_in_SYMBOL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TITLECASE_LETTER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TITLECASE_LETTER(c: char) -> (r: bool) ensures r == unicode_in_TITLECASE_LETTER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_UNASSIGNED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_UNASSIGNED(c: char) -> (r: bool) ensures r == unicode_in_UNASSIGNED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_UPPERCASE_LETTER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_UPPERCASE_LETTER(c: char) -> (r: bool) ensures r == unicode_in_UPPERCASE_LETTER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ADLAM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ADLAM(c: char) -> (r: bool) ensures r == unicode_in_ADLAM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_AHOM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_AHOM(c: char) -> (r: bool) ensures r == unicode_in_AHOM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ANATOLIAN_HIEROGLYPHS(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ANATOLIAN_HIEROGLYPHS(c: char) -> (r: bool) ensures r == unicode_in_ANATOLIAN_HIEROGLYPHS(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ARABIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ARABIC(c: char) -> (r: bool) ensures r == unicode_in_ARABIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ARMENIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ARMENIAN(c: char) -> (r: bool) ensures r == unicode_in_ARMENIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_AVESTAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_AVESTAN(c: char) -> (r: bool) ensures r == unicode_in_AVESTAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BALINESE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BALINESE(c: char) -> (r: bool) ensures r == unicode_in_BALINESE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BAMUM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BAMUM(c: char) -> (r: bool) ensures r == unicode_in_BAMUM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BASSA_VAH(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BASSA_VAH(c: char) -> (r: bool) ensures r == unicode_in_BASSA_VAH(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BATAK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BATAK(c: char) -> (r: bool) ensures r == unicode_in_BATAK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BENGALI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BENGALI(c: char) -> (r: bool) ensures r == unicode_in_BENGALI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BHAIKSUKI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BHAIKSUKI(c: char) -> (r: bool) ensures r == unicode_in_BHAIKSUKI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BOPOMOFO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BOPOMOFO(c: char) -> (r: bool) ensures r == unicode_in_BOPOMOFO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BRAHMI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BRAHMI(c: char) -> (r: bool) ensures r == unicode_in_BRAHMI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BRAILLE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BRAILLE(c: char) -> (r: bool) ensures r == unicode_in_BRAILLE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BUGINESE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BUGINESE(c: char) -> (r: bool) ensures r == unicode_in_BUGINESE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_BUHID(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_BUHID(c: char) -> (r: bool) ensures r == unicode_in_BUHID(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CANADIAN_ABORIGINAL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CANADIAN_ABORIGINAL(c: char) -> (r: bool) ensures r == unicode_in_CANADIAN_ABORIGINAL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CARIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CARIAN(c: char) -> (r: bool) ensures r == unicode_in_CARIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CAUCASIAN_ALBANIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CAUCASIAN_ALBANIAN(c: char) -> (r: bool) ensures r == unicode_in_CAUCASIAN_ALBANIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHAKMA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHAKMA(c: char) -> (r: bool) ensures r == unicode_in_CHAKMA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHAM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHAM(c: char) -> (r: bool) ensures r == unicode_in_CHAM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHEROKEE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHEROKEE(c: char) -> (r: bool) ensures r == unicode_in_CHEROKEE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CHORASMIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CHORASMIAN(c: char) -> (r: bool) ensures r == unicode_in_CHORASMIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_COMMON(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_COMMON(c: char) -> (r: bool) ensures r == unicode_in_COMMON(c) { unimplemented!() }
pub uninterp spec fn unicode_in_COPTIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_COPTIC(c: char) -> (r: bool) ensures r == unicode_in_COPTIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CUNEIFORM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CUNEIFORM(c: char) -> (r: bool) ensures r == unicode_in_CUNEIFORM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CYPRIOT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CYPRIOT(c: char) -> (r: bool) ensures r == unicode_in_CYPRIOT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CYPRO_MINOAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CYPRO_MINOAN(c: char) -> (r: bool) ensures r == unicode_in_CYPRO_MINOAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_CYRILLIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_CYRILLIC(c: char) -> (r: bool) ensures r == unicode_in_CYRILLIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DESERET(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DESERET(c: char) -> (r: bool) ensures r == unicode_in_DESERET(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DEVANAGARI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DEVANAGARI(c: char) -> (r: bool) ensures r == unicode_in_DEVANAGARI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DIVES_AKURU(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DIVES_AKURU(c: char) -> (r: bool) ensures r == unicode_in_DIVES_AKURU(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DOGRA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DOGRA(c: char) -> (r: bool) ensures r == unicode_in_DOGRA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_DUPLOYAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_DUPLOYAN(c: char) -> (r: bool) ensures r == unicode_in_DUPLOYAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_EGYPTIAN_HIEROGLYPHS(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_EGYPTIAN_HIEROGLYPHS(c: char) -> (r: bool) ensures r == unicode_in_EGYPTIAN_HIEROGLYPHS(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ELBASAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ELBASAN(c: char) -> (r: bool) ensures r == unicode_in_ELBASAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ELYMAIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ELYMAIC(c: char) -> (r: bool) ensures r == unicode_in_ELYMAIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ETHIOPIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ETHIOPIC(c: char) -> (r: bool) ensures r == unicode_in_ETHIOPIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GEORGIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GEORGIAN(c: char) -> (r: bool) ensures r == unicode_in_GEORGIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GLAGOLITIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GLAGOLITIC(c: char) -> (r: bool) ensures r == unicode_in_GLAGOLITIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GOTHIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GOTHIC(c: char) -> (r: bool) ensures r == unicode_in_GOTHIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GRANTHA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GRANTHA(c: char) -> (r: bool) ensures r == unicode_in_GRANTHA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GREEK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GREEK(c: char) -> (r: bool) ensures r == unicode_in_GREEK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GUJARATI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GUJARATI(c: char) -> (r: bool) ensures r == unicode_in_GUJARATI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GUNJALA_GONDI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GUNJALA_GONDI(c: char) -> (r: bool) ensures r == unicode_in_GUNJALA_GONDI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_GURMUKHI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_GURMUKHI(c: char) -> (r: bool) ensures r == unicode_in_GURMUKHI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HAN(c: char) -> (r: bool) ensures r == unicode_in_HAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HANGUL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HANGUL(c: char) -> (r: bool) ensures r == unicode_in_HANGUL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HANIFI_ROHINGYA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HANIFI_ROHINGYA(c: char) -> (r: bool) ensures r == unicode_in_HANIFI_ROHINGYA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HANUNOO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HANUNOO(c: char) -> (r: bool) ensures r == unicode_in_HANUNOO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HATRAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HATRAN(c: char) -> (r: bool) ensures r == unicode_in_HATRAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HEBREW(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HEBREW(c: char) -> (r: bool) ensures r == unicode_in_HEBREW(c) { unimplemented!() }
pub uninterp spec fn unicode_in_HIRAGANA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_HIRAGANA(c: char) -> (r: bool) ensures r == unicode_in_HIRAGANA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_IMPERIAL_ARAMAIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_IMPERIAL_ARAMAIC(c: char) -> (r: bool) ensures r == unicode_in_IMPERIAL_ARAMAIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_INHERITED(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_INHERITED(c: char) -> (r: bool) ensures r == unicode_in_INHERITED(c) { unimplemented!() }
pub uninterp spec fn unicode_in_INSCRIPTIONAL_PAHLAVI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_INSCRIPTIONAL_PAHLAVI(c: char) -> (r: bool) ensures r == unicode_in_INSCRIPTIONAL_PAHLAVI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_INSCRIPTIONAL_PARTHIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_INSCRIPTIONAL_PARTHIAN(c: char) -> (r: bool) ensures r == unicode_in_INSCRIPTIONAL_PARTHIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_JAVANESE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_JAVANESE(c: char) -> (r: bool) ensures r == unicode_in_JAVANESE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KAITHI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KAITHI(c: char) -> (r: bool) ensures r == unicode_in_KAITHI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KANNADA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KANNADA(c: char) -> (r: bool) ensures r == unicode_in_KANNADA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KATAKANA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KATAKANA(c: char) -> (r: bool) ensures r == unicode_in_KATAKANA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KAWI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KAWI(c: char) -> (r: bool) ensures r == unicode_in_KAWI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KAYAH_LI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KAYAH_LI(c: char) -> (r: bool) ensures r == unicode_in_KAYAH_LI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KHAROSHTHI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KHAROSHTHI(c: char) -> (r: bool) ensures r == unicode_in_KHAROSHTHI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KHITAN_SMALL_SCRIPT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KHITAN_SMALL_SCRIPT(c: char) -> (r: bool) ensures r == unicode_in_KHITAN_SMALL_SCRIPT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KHMER(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KHMER(c: char) -> (r: bool) ensures r == unicode_in_KHMER(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KHOJKI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KHOJKI(c: char) -> (r: bool) ensures r == unicode_in_KHOJKI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_KHUDAWADI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_KHUDAWADI(c: char) -> (r: bool) ensures r == unicode_in_KHUDAWADI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LAO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LAO(c: char) -> (r: bool) ensures r == unicode_in_LAO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LATIN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LATIN(c: char) -> (r: bool) ensures r == unicode_in_LATIN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LEPCHA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LEPCHA(c: char) -> (r: bool) ensures r == unicode_in_LEPCHA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LIMBU(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LIMBU(c: char) -> (r: bool) ensures r == unicode_in_LIMBU(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LINEAR_A(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LINEAR_A(c: char) -> (r: bool) ensures r == unicode_in_LINEAR_A(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LINEAR_B(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LINEAR_B(c: char) -> (r: bool) ensures r == unicode_in_LINEAR_B(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LISU(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LISU(c: char) -> (r: bool) ensures r == unicode_in_LISU(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LYCIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LYCIAN(c: char) -> (r: bool) ensures r == unicode_in_LYCIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_LYDIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_LYDIAN(c: char) -> (r: bool) ensures r == unicode_in_LYDIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MAHAJANI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MAHAJANI(c: char) -> (r: bool) ensures r == unicode_in_MAHAJANI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MAKASAR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MAKASAR(c: char) -> (r: bool) ensures r == unicode_in_MAKASAR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MALAYALAM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MALAYALAM(c: char) -> (r: bool) ensures r == unicode_in_MALAYALAM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MANDAIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MANDAIC(c: char) -> (r: bool) ensures r == unicode_in_MANDAIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MANICHAEAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MANICHAEAN(c: char) -> (r: bool) ensures r == unicode_in_MANICHAEAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MARCHEN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MARCHEN(c: char) -> (r: bool) ensures r == unicode_in_MARCHEN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MASARAM_GONDI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MASARAM_GONDI(c: char) -> (r: bool) ensures r == unicode_in_MASARAM_GONDI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MEDEFAIDRIN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MEDEFAIDRIN(c: char) -> (r: bool) ensures r == unicode_in_MEDEFAIDRIN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MEETEI_MAYEK(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MEETEI_MAYEK(c: char) -> (r: bool) ensures r == unicode_in_MEETEI_MAYEK(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MENDE_KIKAKUI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MENDE_KIKAKUI(c: char) -> (r: bool) ensures r == unicode_in_MENDE_KIKAKUI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MEROITIC_CURSIVE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MEROITIC_CURSIVE(c: char) -> (r: bool) ensures r == unicode_in_MEROITIC_CURSIVE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MEROITIC_HIEROGLYPHS(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MEROITIC_HIEROGLYPHS(c: char) -> (r: bool) ensures r == unicode_in_MEROITIC_HIEROGLYPHS(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MIAO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MIAO(c: char) -> (r: bool) ensures r == unicode_in_MIAO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MODI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MODI(c: char) -> (r: bool) ensures r == unicode_in_MODI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MONGOLIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MONGOLIAN(c: char) -> (r: bool) ensures r == unicode_in_MONGOLIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MRO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MRO(c: char) -> (r: bool) ensures r == unicode_in_MRO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MULTANI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MULTANI(c: char) -> (r: bool) ensures r == unicode_in_MULTANI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_MYANMAR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_MYANMAR(c: char) -> (r: bool) ensures r == unicode_in_MYANMAR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NABATAEAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NABATAEAN(c: char) -> (r: bool) ensures r == unicode_in_NABATAEAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NAG_MUNDARI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NAG_MUNDARI(c: char) -> (r: bool) ensures r == unicode_in_NAG_MUNDARI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NANDINAGARI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NANDINAGARI(c: char) -> (r: bool) ensures r == unicode_in_NANDINAGARI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NEW_TAI_LUE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NEW_TAI_LUE(c: char) -> (r: bool) ensures r == unicode_in_NEW_TAI_LUE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NEWA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NEWA(c: char) -> (r: bool) ensures r == unicode_in_NEWA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NKO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NKO(c: char) -> (r: bool) ensures r == unicode_in_NKO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NUSHU(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NUSHU(c: char) -> (r: bool) ensures r == unicode_in_NUSHU(c) { unimplemented!() }
pub uninterp spec fn unicode_in_NYIAKENG_PUACHUE_HMONG(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_NYIAKENG_PUACHUE_HMONG(c: char) -> (r: bool) ensures r == unicode_in_NYIAKENG_PUACHUE_HMONG(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OGHAM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OGHAM(c: char) -> (r: bool) ensures r == unicode_in_OGHAM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OL_CHIKI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OL_CHIKI(c: char) -> (r: bool) ensures r == unicode_in_OL_CHIKI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_HUNGARIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_HUNGARIAN(c: char) -> (r: bool) ensures r == unicode_in_OLD_HUNGARIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_ITALIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_ITALIC(c: char) -> (r: bool) ensures r == unicode_in_OLD_ITALIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_NORTH_ARABIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_NORTH_ARABIAN(c: char) -> (r: bool) ensures r == unicode_in_OLD_NORTH_ARABIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_PERMIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_PERMIC(c: char) -> (r: bool) ensures r == unicode_in_OLD_PERMIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_PERSIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_PERSIAN(c: char) -> (r: bool) ensures r == unicode_in_OLD_PERSIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_SOGDIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_SOGDIAN(c: char) -> (r: bool) ensures r == unicode_in_OLD_SOGDIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_SOUTH_ARABIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_SOUTH_ARABIAN(c: char) -> (r: bool) ensures r == unicode_in_OLD_SOUTH_ARABIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_TURKIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_TURKIC(c: char) -> (r: bool) ensures r == unicode_in_OLD_TURKIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OLD_UYGHUR(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OLD_UYGHUR(c: char) -> (r: bool) ensures r == unicode_in_OLD_UYGHUR(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ORIYA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ORIYA(c: char) -> (r: bool) ensures r == unicode_in_ORIYA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OSAGE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OSAGE(c: char) -> (r: bool) ensures r == unicode_in_OSAGE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_OSMANYA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_OSMANYA(c: char) -> (r: bool) ensures r == unicode_in_OSMANYA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PAHAWH_HMONG(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PAHAWH_HMONG(c: char) -> (r: bool) ensures r == unicode_in_PAHAWH_HMONG(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PALMYRENE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PALMYRENE(c: char) -> (r: bool) ensures r == unicode_in_PALMYRENE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PAU_CIN_HAU(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PAU_CIN_HAU(c: char) -> (r: bool) ensures r == unicode_in_PAU_CIN_HAU(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PHAGS_PA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PHAGS_PA(c: char) -> (r: bool) ensures r == unicode_in_PHAGS_PA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PHOENICIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PHOENICIAN(c: char) -> (r: bool) ensures r == unicode_in_PHOENICIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_PSALTER_PAHLAVI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_PSALTER_PAHLAVI(c: char) -> (r: bool) ensures r == unicode_in_PSALTER_PAHLAVI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_REJANG(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_REJANG(c: char) -> (r: bool) ensures r == unicode_in_REJANG(c) { unimplemented!() }
pub uninterp spec fn unicode_in_RUNIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_RUNIC(c: char) -> (r: bool) ensures r == unicode_in_RUNIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SAMARITAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SAMARITAN(c: char) -> (r: bool) ensures r == unicode_in_SAMARITAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SAURASHTRA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SAURASHTRA(c: char) -> (r: bool) ensures r == unicode_in_SAURASHTRA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SHARADA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SHARADA(c: char) -> (r: bool) ensures r == unicode_in_SHARADA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SHAVIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SHAVIAN(c: char) -> (r: bool) ensures r == unicode_in_SHAVIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SIDDHAM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SIDDHAM(c: char) -> (r: bool) ensures r == unicode_in_SIDDHAM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SIGNWRITING(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SIGNWRITING(c: char) -> (r: bool) ensures r == unicode_in_SIGNWRITING(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SINHALA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SINHALA(c: char) -> (r: bool) ensures r == unicode_in_SINHALA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SOGDIAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SOGDIAN(c: char) -> (r: bool) ensures r == unicode_in_SOGDIAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SORA_SOMPENG(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SORA_SOMPENG(c: char) -> (r: bool) ensures r == unicode_in_SORA_SOMPENG(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SOYOMBO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SOYOMBO(c: char) -> (r: bool) ensures r == unicode_in_SOYOMBO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SUNDANESE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SUNDANESE(c: char) -> (r: bool) ensures r == unicode_in_SUNDANESE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SYLOTI_NAGRI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SYLOTI_NAGRI(c: char) -> (r: bool) ensures r == unicode_in_SYLOTI_NAGRI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_SYRIAC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_SYRIAC(c: char) -> (r: bool) ensures r == unicode_in_SYRIAC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TAGALOG(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TAGALOG(c: char) -> (r: bool) ensures r == unicode_in_TAGALOG(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TAGBANWA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TAGBANWA(c: char) -> (r: bool) ensures r == unicode_in_TAGBANWA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TAI_LE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TAI_LE(c: char) -> (r: bool) ensures r == unicode_in_TAI_LE(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TAI_THAM(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TAI_THAM(c: char) -> (r: bool) ensures r == unicode_in_TAI_THAM(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TAI_VIET(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TAI_VIET(c: char) -> (r: bool) ensures r == unicode_in_TAI_VIET(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TAKRI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TAKRI(c: char) -> (r: bool) ensures r == unicode_in_TAKRI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TAMIL(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TAMIL(c: char) -> (r: bool) ensures r == unicode_in_TAMIL(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TANGSA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TANGSA(c: char) -> (r: bool) ensures r == unicode_in_TANGSA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TANGUT(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TANGUT(c: char) -> (r: bool) ensures r == unicode_in_TANGUT(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TELUGU(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TELUGU(c: char) -> (r: bool) ensures r == unicode_in_TELUGU(c) { unimplemented!() }
pub uninterp spec fn unicode_in_THAANA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_THAANA(c: char) -> (r: bool) ensures r == unicode_in_THAANA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_THAI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_THAI(c: char) -> (r: bool) ensures r == unicode_in_THAI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TIBETAN(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TIBETAN(c: char) -> (r: bool) ensures r == unicode_in_TIBETAN(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TIFINAGH(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TIFINAGH(c: char) -> (r: bool) ensures r == unicode_in_TIFINAGH(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TIRHUTA(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TIRHUTA(c: char) -> (r: bool) ensures r == unicode_in_TIRHUTA(c) { unimplemented!() }
pub uninterp spec fn unicode_in_TOTO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_TOTO(c: char) -> (r: bool) ensures r == unicode_in_TOTO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_UGARITIC(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_UGARITIC(c: char) -> (r: bool) ensures r == unicode_in_UGARITIC(c) { unimplemented!() }
pub uninterp spec fn unicode_in_VAI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_VAI(c: char) -> (r: bool) ensures r == unicode_in_VAI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_VITHKUQI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_VITHKUQI(c: char) -> (r: bool) ensures r == unicode_in_VITHKUQI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_WANCHO(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_WANCHO(c: char) -> (r: bool) ensures r == unicode_in_WANCHO(c) { unimplemented!() }
pub uninterp spec fn unicode_in_WARANG_CITI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_WARANG_CITI(c: char) -> (r: bool) ensures r == unicode_in_WARANG_CITI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_YEZIDI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_YEZIDI(c: char) -> (r: bool) ensures r == unicode_in_YEZIDI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_YI(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_YI(c: char) -> (r: bool) ensures r == unicode_in_YI(c) { unimplemented!() }
pub uninterp spec fn unicode_in_ZANABAZAR_SQUARE(c: char) -> bool;
#[verifier::external_body]
pub fn unicode_ZANABAZAR_SQUARE(c: char) -> (r: bool) ensures r == unicode_in_ZANABAZAR_SQUARE(c) { unimplemented!() }
pub open spec fn n_class<'i>(p: Position<'i>, ok: bool) -> Option<int> { if p.rest().len() > 0 && ok { Some(1) } else { None } }
//@item core ALPHABETIC
//@open core impl TypedNode for ALPHABETIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ALPHABETIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BIDI_CONTROL
//@open core impl TypedNode for BIDI_CONTROL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BIDI_CONTROL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CASE_IGNORABLE
//@open core impl TypedNode for CASE_IGNORABLE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CASE_IGNORABLE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CASED
//@open core impl TypedNode for CASED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CASED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHANGES_WHEN_CASEFOLDED
//@open core impl TypedNode for CHANGES_WHEN_CASEFOLDED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHANGES_WHEN_CASEFOLDED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHANGES_WHEN_CASEMAPPED
//@open core impl TypedNode for CHANGES_WHEN_CASEMAPPED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHANGES_WHEN_CASEMAPPED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHANGES_WHEN_LOWERCASED
//@open core impl TypedNode for CHANGES_WHEN_LOWERCASED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHANGES_WHEN_LOWERCASED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHANGES_WHEN_TITLECASED
//@open core impl TypedNode for CHANGES_WHEN_TITLECASED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHANGES_WHEN_TITLECASED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHANGES_WHEN_UPPERCASED
//@open core impl TypedNode for CHANGES_WHEN_UPPERCASED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHANGES_WHEN_UPPERCASED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DASH
//@open core impl TypedNode for DASH
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DASH(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DEFAULT_IGNORABLE_CODE_POINT
//@open core impl TypedNode for DEFAULT_IGNORABLE_CODE_POINT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DEFAULT_IGNORABLE_CODE_POINT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DEPRECATED
//@open core impl TypedNode for DEPRECATED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DEPRECATED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DIACRITIC
//@open core impl TypedNode for DIACRITIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DIACRITIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core EMOJI
//@open core impl TypedNode for EMOJI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_EMOJI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core EMOJI_COMPONENT
//@open core impl TypedNode for EMOJI_COMPONENT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_EMOJI_COMPONENT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core EMOJI_MODIFIER
//@open core impl TypedNode for EMOJI_MODIFIER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_EMOJI_MODIFIER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core EMOJI_MODIFIER_BASE
//@open core impl TypedNode for EMOJI_MODIFIER_BASE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_EMOJI_MODIFIER_BASE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core EMOJI_PRESENTATION
//@open core impl TypedNode for EMOJI_PRESENTATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_EMOJI_PRESENTATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core EXTENDED_PICTOGRAPHIC
//@open core impl TypedNode for EXTENDED_PICTOGRAPHIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_EXTENDED_PICTOGRAPHIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core EXTENDER
//@open core impl TypedNode for EXTENDER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_EXTENDER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GRAPHEME_BASE
//@open core impl TypedNode for GRAPHEME_BASE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GRAPHEME_BASE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GRAPHEME_EXTEND
//@open core impl TypedNode for GRAPHEME_EXTEND
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GRAPHEME_EXTEND(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GRAPHEME_LINK
//@open core impl TypedNode for GRAPHEME_LINK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GRAPHEME_LINK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HEX_DIGIT
//@open core impl TypedNode for HEX_DIGIT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HEX_DIGIT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HYPHEN
//@open core impl TypedNode for HYPHEN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HYPHEN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core IDS_BINARY_OPERATOR
//@open core impl TypedNode for IDS_BINARY_OPERATOR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_IDS_BINARY_OPERATOR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core IDS_TRINARY_OPERATOR
//@open core impl TypedNode for IDS_TRINARY_OPERATOR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_IDS_TRINARY_OPERATOR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ID_CONTINUE
//@open core impl TypedNode for ID_CONTINUE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ID_CONTINUE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ID_START
//@open core impl TypedNode for ID_START
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ID_START(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core IDEOGRAPHIC
//@open core impl TypedNode for IDEOGRAPHIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_IDEOGRAPHIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core JOIN_CONTROL
//@open core impl TypedNode for JOIN_CONTROL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_JOIN_CONTROL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LOGICAL_ORDER_EXCEPTION
//@open core impl TypedNode for LOGICAL_ORDER_EXCEPTION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LOGICAL_ORDER_EXCEPTION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LOWERCASE
//@open core impl TypedNode for LOWERCASE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LOWERCASE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MATH
//@open core impl TypedNode for MATH
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MATH(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NONCHARACTER_CODE_POINT
//@open core impl TypedNode for NONCHARACTER_CODE_POINT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NONCHARACTER_CODE_POINT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_ALPHABETIC
//@open core impl TypedNode for OTHER_ALPHABETIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_ALPHABETIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_DEFAULT_IGNORABLE_CODE_POINT
//@open core impl TypedNode for OTHER_DEFAULT_IGNORABLE_CODE_POINT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_DEFAULT_IGNORABLE_CODE_POINT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_GRAPHEME_EXTEND
//@open core impl TypedNode for OTHER_GRAPHEME_EXTEND
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_GRAPHEME_EXTEND(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_ID_CONTINUE
//@open core impl TypedNode for OTHER_ID_CONTINUE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_ID_CONTINUE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_ID_START
//@open core impl TypedNode for OTHER_ID_START
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_ID_START(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_LOWERCASE
//@open core impl TypedNode for OTHER_LOWERCASE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_LOWERCASE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_MATH
//@open core impl TypedNode for OTHER_MATH
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_MATH(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_UPPERCASE
//@open core impl TypedNode for OTHER_UPPERCASE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_UPPERCASE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PATTERN_SYNTAX
//@open core impl TypedNode for PATTERN_SYNTAX
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PATTERN_SYNTAX(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PATTERN_WHITE_SPACE
//@open core impl TypedNode for PATTERN_WHITE_SPACE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PATTERN_WHITE_SPACE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PREPENDED_CONCATENATION_MARK
//@open core impl TypedNode for PREPENDED_CONCATENATION_MARK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PREPENDED_CONCATENATION_MARK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core QUOTATION_MARK
//@open core impl TypedNode for QUOTATION_MARK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_QUOTATION_MARK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core RADICAL
//@open core impl TypedNode for RADICAL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_RADICAL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core REGIONAL_INDICATOR
//@open core impl TypedNode for REGIONAL_INDICATOR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_REGIONAL_INDICATOR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SENTENCE_TERMINAL
//@open core impl TypedNode for SENTENCE_TERMINAL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SENTENCE_TERMINAL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SOFT_DOTTED
//@open core impl TypedNode for SOFT_DOTTED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SOFT_DOTTED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TERMINAL_PUNCTUATION
//@open core impl TypedNode for TERMINAL_PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TERMINAL_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core UNIFIED_IDEOGRAPH
//@open core impl TypedNode for UNIFIED_IDEOGRAPH
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_UNIFIED_IDEOGRAPH(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core UPPERCASE
//@open core impl TypedNode for UPPERCASE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_UPPERCASE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core VARIATION_SELECTOR
//@open core impl TypedNode for VARIATION_SELECTOR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_VARIATION_SELECTOR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core WHITE_SPACE
//@open core impl TypedNode for WHITE_SPACE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_WHITE_SPACE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core XID_CONTINUE
//@open core impl TypedNode for XID_CONTINUE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_XID_CONTINUE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core XID_START
//@open core impl TypedNode for XID_START
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_XID_START(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CASED_LETTER
//@open core impl TypedNode for CASED_LETTER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CASED_LETTER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CLOSE_PUNCTUATION
//@open core impl TypedNode for CLOSE_PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CLOSE_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CONNECTOR_PUNCTUATION
//@open core impl TypedNode for CONNECTOR_PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CONNECTOR_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CONTROL
//@open core impl TypedNode for CONTROL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CONTROL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CURRENCY_SYMBOL
//@open core impl TypedNode for CURRENCY_SYMBOL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CURRENCY_SYMBOL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DASH_PUNCTUATION
//@open core impl TypedNode for DASH_PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DASH_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DECIMAL_NUMBER
//@open core impl TypedNode for DECIMAL_NUMBER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DECIMAL_NUMBER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ENCLOSING_MARK
//@open core impl TypedNode for ENCLOSING_MARK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ENCLOSING_MARK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core FINAL_PUNCTUATION
//@open core impl TypedNode for FINAL_PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_FINAL_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core FORMAT
//@open core impl TypedNode for FORMAT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_FORMAT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core INITIAL_PUNCTUATION
//@open core impl TypedNode for INITIAL_PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_INITIAL_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LETTER
//@open core impl TypedNode for LETTER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LETTER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LETTER_NUMBER
//@open core impl TypedNode for LETTER_NUMBER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LETTER_NUMBER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LINE_SEPARATOR
//@open core impl TypedNode for LINE_SEPARATOR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LINE_SEPARATOR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LOWERCASE_LETTER
//@open core impl TypedNode for LOWERCASE_LETTER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LOWERCASE_LETTER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MARK
//@open core impl TypedNode for MARK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MARK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MATH_SYMBOL
//@open core impl TypedNode for MATH_SYMBOL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MATH_SYMBOL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MODIFIER_LETTER
//@open core impl TypedNode for MODIFIER_LETTER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MODIFIER_LETTER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MODIFIER_SYMBOL
//@open core impl TypedNode for MODIFIER_SYMBOL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MODIFIER_SYMBOL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NONSPACING_MARK
//@open core impl TypedNode for NONSPACING_MARK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NONSPACING_MARK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NUMBER
//@open core impl TypedNode for NUMBER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NUMBER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OPEN_PUNCTUATION
//@open core impl TypedNode for OPEN_PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OPEN_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER
//@open core impl TypedNode for OTHER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_LETTER
//@open core impl TypedNode for OTHER_LETTER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_LETTER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_NUMBER
//@open core impl TypedNode for OTHER_NUMBER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_NUMBER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_PUNCTUATION
//@open core impl TypedNode for OTHER_PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OTHER_SYMBOL
//@open core impl TypedNode for OTHER_SYMBOL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OTHER_SYMBOL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PARAGRAPH_SEPARATOR
//@open core impl TypedNode for PARAGRAPH_SEPARATOR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PARAGRAPH_SEPARATOR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PRIVATE_USE
//@open core impl TypedNode for PRIVATE_USE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PRIVATE_USE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PUNCTUATION
//@open core impl TypedNode for PUNCTUATION
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PUNCTUATION(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SEPARATOR
//@open core impl TypedNode for SEPARATOR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SEPARATOR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SPACE_SEPARATOR
//@open core impl TypedNode for SPACE_SEPARATOR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SPACE_SEPARATOR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SPACING_MARK
//@open core impl TypedNode for SPACING_MARK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SPACING_MARK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SURROGATE
//@open core impl TypedNode for SURROGATE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SURROGATE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SYMBOL
//@open core impl TypedNode for SYMBOL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SYMBOL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TITLECASE_LETTER
//@open core impl TypedNode for TITLECASE_LETTER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TITLECASE_LETTER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core UNASSIGNED
//@open core impl TypedNode for UNASSIGNED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_UNASSIGNED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core UPPERCASE_LETTER
//@open core impl TypedNode for UPPERCASE_LETTER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_UPPERCASE_LETTER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ADLAM
//@open core impl TypedNode for ADLAM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ADLAM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core AHOM
//@open core impl TypedNode for AHOM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_AHOM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ANATOLIAN_HIEROGLYPHS
//@open core impl TypedNode for ANATOLIAN_HIEROGLYPHS
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ANATOLIAN_HIEROGLYPHS(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ARABIC
//@open core impl TypedNode for ARABIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ARABIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ARMENIAN
//@open core impl TypedNode for ARMENIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ARMENIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core AVESTAN
//@open core impl TypedNode for AVESTAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_AVESTAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BALINESE
//@open core impl TypedNode for BALINESE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BALINESE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BAMUM
//@open core impl TypedNode for BAMUM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BAMUM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BASSA_VAH
//@open core impl TypedNode for BASSA_VAH
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BASSA_VAH(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BATAK
//@open core impl TypedNode for BATAK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BATAK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BENGALI
//@open core impl TypedNode for BENGALI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BENGALI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BHAIKSUKI
//@open core impl TypedNode for BHAIKSUKI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BHAIKSUKI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BOPOMOFO
//@open core impl TypedNode for BOPOMOFO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BOPOMOFO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BRAHMI
//@open core impl TypedNode for BRAHMI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BRAHMI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BRAILLE
//@open core impl TypedNode for BRAILLE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BRAILLE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BUGINESE
//@open core impl TypedNode for BUGINESE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BUGINESE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core BUHID
//@open core impl TypedNode for BUHID
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_BUHID(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CANADIAN_ABORIGINAL
//@open core impl TypedNode for CANADIAN_ABORIGINAL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CANADIAN_ABORIGINAL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CARIAN
//@open core impl TypedNode for CARIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CARIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CAUCASIAN_ALBANIAN
//@open core impl TypedNode for CAUCASIAN_ALBANIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CAUCASIAN_ALBANIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHAKMA
//@open core impl TypedNode for CHAKMA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHAKMA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHAM
//@open core impl TypedNode for CHAM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHAM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHEROKEE
//@open core impl TypedNode for CHEROKEE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHEROKEE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CHORASMIAN
//@open core impl TypedNode for CHORASMIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CHORASMIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core COMMON
//@open core impl TypedNode for COMMON
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_COMMON(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core COPTIC
//@open core impl TypedNode for COPTIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_COPTIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CUNEIFORM
//@open core impl TypedNode for CUNEIFORM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CUNEIFORM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CYPRIOT
//@open core impl TypedNode for CYPRIOT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CYPRIOT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CYPRO_MINOAN
//@open core impl TypedNode for CYPRO_MINOAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CYPRO_MINOAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core CYRILLIC
//@open core impl TypedNode for CYRILLIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_CYRILLIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DESERET
//@open core impl TypedNode for DESERET
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DESERET(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DEVANAGARI
//@open core impl TypedNode for DEVANAGARI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DEVANAGARI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DIVES_AKURU
//@open core impl TypedNode for DIVES_AKURU
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DIVES_AKURU(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DOGRA
//@open core impl TypedNode for DOGRA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DOGRA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core DUPLOYAN
//@open core impl TypedNode for DUPLOYAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_DUPLOYAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core EGYPTIAN_HIEROGLYPHS
//@open core impl TypedNode for EGYPTIAN_HIEROGLYPHS
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_EGYPTIAN_HIEROGLYPHS(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ELBASAN
//@open core impl TypedNode for ELBASAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ELBASAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ELYMAIC
//@open core impl TypedNode for ELYMAIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ELYMAIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ETHIOPIC
//@open core impl TypedNode for ETHIOPIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ETHIOPIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GEORGIAN
//@open core impl TypedNode for GEORGIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GEORGIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GLAGOLITIC
//@open core impl TypedNode for GLAGOLITIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GLAGOLITIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GOTHIC
//@open core impl TypedNode for GOTHIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GOTHIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GRANTHA
//@open core impl TypedNode for GRANTHA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GRANTHA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GREEK
//@open core impl TypedNode for GREEK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GREEK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GUJARATI
//@open core impl TypedNode for GUJARATI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GUJARATI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GUNJALA_GONDI
//@open core impl TypedNode for GUNJALA_GONDI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GUNJALA_GONDI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core GURMUKHI
//@open core impl TypedNode for GURMUKHI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_GURMUKHI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HAN
//@open core impl TypedNode for HAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HANGUL
//@open core impl TypedNode for HANGUL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HANGUL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HANIFI_ROHINGYA
//@open core impl TypedNode for HANIFI_ROHINGYA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HANIFI_ROHINGYA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HANUNOO
//@open core impl TypedNode for HANUNOO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HANUNOO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HATRAN
//@open core impl TypedNode for HATRAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HATRAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HEBREW
//@open core impl TypedNode for HEBREW
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HEBREW(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core HIRAGANA
//@open core impl TypedNode for HIRAGANA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_HIRAGANA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core IMPERIAL_ARAMAIC
//@open core impl TypedNode for IMPERIAL_ARAMAIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_IMPERIAL_ARAMAIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core INHERITED
//@open core impl TypedNode for INHERITED
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_INHERITED(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core INSCRIPTIONAL_PAHLAVI
//@open core impl TypedNode for INSCRIPTIONAL_PAHLAVI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_INSCRIPTIONAL_PAHLAVI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core INSCRIPTIONAL_PARTHIAN
//@open core impl TypedNode for INSCRIPTIONAL_PARTHIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_INSCRIPTIONAL_PARTHIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core JAVANESE
//@open core impl TypedNode for JAVANESE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_JAVANESE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KAITHI
//@open core impl TypedNode for KAITHI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KAITHI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KANNADA
//@open core impl TypedNode for KANNADA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KANNADA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KATAKANA
//@open core impl TypedNode for KATAKANA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KATAKANA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KAWI
//@open core impl TypedNode for KAWI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KAWI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KAYAH_LI
//@open core impl TypedNode for KAYAH_LI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KAYAH_LI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KHAROSHTHI
//@open core impl TypedNode for KHAROSHTHI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KHAROSHTHI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KHITAN_SMALL_SCRIPT
//@open core impl TypedNode for KHITAN_SMALL_SCRIPT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KHITAN_SMALL_SCRIPT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KHMER
//@open core impl TypedNode for KHMER
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KHMER(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KHOJKI
//@open core impl TypedNode for KHOJKI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KHOJKI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core KHUDAWADI
//@open core impl TypedNode for KHUDAWADI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_KHUDAWADI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LAO
//@open core impl TypedNode for LAO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LAO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LATIN
//@open core impl TypedNode for LATIN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LATIN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LEPCHA
//@open core impl TypedNode for LEPCHA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LEPCHA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LIMBU
//@open core impl TypedNode for LIMBU
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LIMBU(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LINEAR_A
//@open core impl TypedNode for LINEAR_A
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LINEAR_A(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LINEAR_B
//@open core impl TypedNode for LINEAR_B
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LINEAR_B(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LISU
//@open core impl TypedNode for LISU
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LISU(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LYCIAN
//@open core impl TypedNode for LYCIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LYCIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core LYDIAN
//@open core impl TypedNode for LYDIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_LYDIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MAHAJANI
//@open core impl TypedNode for MAHAJANI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MAHAJANI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MAKASAR
//@open core impl TypedNode for MAKASAR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MAKASAR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MALAYALAM
//@open core impl TypedNode for MALAYALAM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MALAYALAM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MANDAIC
//@open core impl TypedNode for MANDAIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MANDAIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MANICHAEAN
//@open core impl TypedNode for MANICHAEAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MANICHAEAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MARCHEN
//@open core impl TypedNode for MARCHEN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MARCHEN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MASARAM_GONDI
//@open core impl TypedNode for MASARAM_GONDI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MASARAM_GONDI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MEDEFAIDRIN
//@open core impl TypedNode for MEDEFAIDRIN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MEDEFAIDRIN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MEETEI_MAYEK
//@open core impl TypedNode for MEETEI_MAYEK
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MEETEI_MAYEK(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MENDE_KIKAKUI
//@open core impl TypedNode for MENDE_KIKAKUI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MENDE_KIKAKUI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MEROITIC_CURSIVE
//@open core impl TypedNode for MEROITIC_CURSIVE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MEROITIC_CURSIVE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MEROITIC_HIEROGLYPHS
//@open core impl TypedNode for MEROITIC_HIEROGLYPHS
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MEROITIC_HIEROGLYPHS(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MIAO
//@open core impl TypedNode for MIAO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MIAO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MODI
//@open core impl TypedNode for MODI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MODI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MONGOLIAN
//@open core impl TypedNode for MONGOLIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MONGOLIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MRO
//@open core impl TypedNode for MRO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MRO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MULTANI
//@open core impl TypedNode for MULTANI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MULTANI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core MYANMAR
//@open core impl TypedNode for MYANMAR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_MYANMAR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NABATAEAN
//@open core impl TypedNode for NABATAEAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NABATAEAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NAG_MUNDARI
//@open core impl TypedNode for NAG_MUNDARI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NAG_MUNDARI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NANDINAGARI
//@open core impl TypedNode for NANDINAGARI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NANDINAGARI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NEW_TAI_LUE
//@open core impl TypedNode for NEW_TAI_LUE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NEW_TAI_LUE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NEWA
//@open core impl TypedNode for NEWA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NEWA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NKO
//@open core impl TypedNode for NKO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NKO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NUSHU
//@open core impl TypedNode for NUSHU
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NUSHU(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NYIAKENG_PUACHUE_HMONG
//@open core impl TypedNode for NYIAKENG_PUACHUE_HMONG
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_NYIAKENG_PUACHUE_HMONG(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OGHAM
//@open core impl TypedNode for OGHAM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OGHAM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OL_CHIKI
//@open core impl TypedNode for OL_CHIKI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OL_CHIKI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_HUNGARIAN
//@open core impl TypedNode for OLD_HUNGARIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_HUNGARIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_ITALIC
//@open core impl TypedNode for OLD_ITALIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_ITALIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_NORTH_ARABIAN
//@open core impl TypedNode for OLD_NORTH_ARABIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_NORTH_ARABIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_PERMIC
//@open core impl TypedNode for OLD_PERMIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_PERMIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_PERSIAN
//@open core impl TypedNode for OLD_PERSIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_PERSIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_SOGDIAN
//@open core impl TypedNode for OLD_SOGDIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_SOGDIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_SOUTH_ARABIAN
//@open core impl TypedNode for OLD_SOUTH_ARABIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_SOUTH_ARABIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_TURKIC
//@open core impl TypedNode for OLD_TURKIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_TURKIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OLD_UYGHUR
//@open core impl TypedNode for OLD_UYGHUR
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OLD_UYGHUR(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ORIYA
//@open core impl TypedNode for ORIYA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ORIYA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OSAGE
//@open core impl TypedNode for OSAGE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OSAGE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core OSMANYA
//@open core impl TypedNode for OSMANYA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_OSMANYA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PAHAWH_HMONG
//@open core impl TypedNode for PAHAWH_HMONG
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PAHAWH_HMONG(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PALMYRENE
//@open core impl TypedNode for PALMYRENE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PALMYRENE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PAU_CIN_HAU
//@open core impl TypedNode for PAU_CIN_HAU
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PAU_CIN_HAU(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PHAGS_PA
//@open core impl TypedNode for PHAGS_PA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PHAGS_PA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PHOENICIAN
//@open core impl TypedNode for PHOENICIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PHOENICIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core PSALTER_PAHLAVI
//@open core impl TypedNode for PSALTER_PAHLAVI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_PSALTER_PAHLAVI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core REJANG
//@open core impl TypedNode for REJANG
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_REJANG(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core RUNIC
//@open core impl TypedNode for RUNIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_RUNIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SAMARITAN
//@open core impl TypedNode for SAMARITAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SAMARITAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SAURASHTRA
//@open core impl TypedNode for SAURASHTRA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SAURASHTRA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SHARADA
//@open core impl TypedNode for SHARADA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SHARADA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SHAVIAN
//@open core impl TypedNode for SHAVIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SHAVIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SIDDHAM
//@open core impl TypedNode for SIDDHAM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SIDDHAM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SIGNWRITING
//@open core impl TypedNode for SIGNWRITING
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SIGNWRITING(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SINHALA
//@open core impl TypedNode for SINHALA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SINHALA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SOGDIAN
//@open core impl TypedNode for SOGDIAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SOGDIAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SORA_SOMPENG
//@open core impl TypedNode for SORA_SOMPENG
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SORA_SOMPENG(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SOYOMBO
//@open core impl TypedNode for SOYOMBO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SOYOMBO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SUNDANESE
//@open core impl TypedNode for SUNDANESE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SUNDANESE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SYLOTI_NAGRI
//@open core impl TypedNode for SYLOTI_NAGRI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SYLOTI_NAGRI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core SYRIAC
//@open core impl TypedNode for SYRIAC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_SYRIAC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TAGALOG
//@open core impl TypedNode for TAGALOG
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TAGALOG(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TAGBANWA
//@open core impl TypedNode for TAGBANWA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TAGBANWA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TAI_LE
//@open core impl TypedNode for TAI_LE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TAI_LE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TAI_THAM
//@open core impl TypedNode for TAI_THAM
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TAI_THAM(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TAI_VIET
//@open core impl TypedNode for TAI_VIET
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TAI_VIET(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TAKRI
//@open core impl TypedNode for TAKRI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TAKRI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TAMIL
//@open core impl TypedNode for TAMIL
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TAMIL(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TANGSA
//@open core impl TypedNode for TANGSA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TANGSA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TANGUT
//@open core impl TypedNode for TANGUT
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TANGUT(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TELUGU
//@open core impl TypedNode for TELUGU
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TELUGU(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core THAANA
//@open core impl TypedNode for THAANA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_THAANA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core THAI
//@open core impl TypedNode for THAI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_THAI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TIBETAN
//@open core impl TypedNode for TIBETAN
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TIBETAN(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TIFINAGH
//@open core impl TypedNode for TIFINAGH
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TIFINAGH(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TIRHUTA
//@open core impl TypedNode for TIRHUTA
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TIRHUTA(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core TOTO
//@open core impl TypedNode for TOTO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_TOTO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core UGARITIC
//@open core impl TypedNode for UGARITIC
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_UGARITIC(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core VAI
//@open core impl TypedNode for VAI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_VAI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core VITHKUQI
//@open core impl TypedNode for VITHKUQI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_VITHKUQI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core WANCHO
//@open core impl TypedNode for WANCHO
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_WANCHO(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core WARANG_CITI
//@open core impl TypedNode for WARANG_CITI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_WARANG_CITI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core YEZIDI
//@open core impl TypedNode for YEZIDI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_YEZIDI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core YI
//@open core impl TypedNode for YI
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_YI(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core ZANABAZAR_SQUARE
//@open core impl TypedNode for ZANABAZAR_SQUARE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_class(input, unicode_in_ZANABAZAR_SQUARE(input.rest()[0]))) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
